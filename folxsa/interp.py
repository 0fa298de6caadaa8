"""Abstract interpreter for the Python subset used by the analysed project.

One abstract state per program point: control-flow merges join states, values that differ on the
merged branches become guarded values (Phi) over the branch condition.  Nothing of the analysed
project is imported or executed; external libraries are described by transfer functions (models*).
"""
import ast
import os
import sys
from fractions import Fraction

from .poly import Poly, ZERO, ONE
from .values import *


class Unknown(Exception):
    """The analysis cannot describe a value."""


class AbsRaise(Exception):
    """The analysed program definitely raises here (in the current abstract state)."""

    def __init__(self, exc, where=None, model=False):
        super().__init__(str(exc))
        self.exc, self.where, self.model = exc, where, model


class Budget(Exception):
    pass


CALLER = 'the caller'
OWNED_KINDS = ('userfn', 'JaxprEqn', 'Jaxpr', 'ClosedJaxpr', 'Primitive', 'Var', 'DropVar', 'Literal', 'SourceInfo', 'ShapedArray', 'nameless', 'arrflags')


class State:
    __slots__ = ('d', 'parent', 'assume', 'dead')

    def __init__(self, parent=None, assume=None, dead=None):
        self.parent = parent
        self.d = {}
        self.assume = dict(assume if assume is not None else (parent.assume if parent else {}))
        # combinations of guards under which control has left this code (return, raise)
        self.dead = dead if dead is not None else (parent.dead if parent else ())

    def get(self, k, default=None):
        s = self
        while s is not None:
            if k in s.d:
                return s.d[k]
            s = s.parent
        return default

    def has(self, k):
        s = self
        while s is not None:
            if k in s.d:
                return s.d[k] is not DELETED
            s = s.parent
        return False

    def set(self, k, v):
        self.d[k] = v

    def child(self, extra=()):
        c = State(self)
        for g, v in extra:
            c.assume[g] = v
        if c.dead and extra:
            c.propagate()
        return c

    def propagate(self):
        a = self.assume
        again = True
        while again:
            again = False
            for cube in self.dead:
                open_ = None
                for g, v in cube:
                    x = a.get(g)
                    if x is None:
                        if open_ is not None:
                            break
                        open_ = (g, v)
                    elif x != v:
                        break
                else:
                    if open_ is not None:
                        a[open_[0]] = not open_[1]
                        again = True

    def kill(self, cubes):
        cubes = tuple(c for c in cubes if c not in self.dead and not any(self.assume.get(g) == (not v) for g, v in c))
        if cubes and len(self.dead) + len(cubes) <= 48:
            self.dead = self.dead + cubes
            self.propagate()


class _Deleted:
    def __repr__(self):
        return 'DELETED'


DELETED = _Deleted()
UNBOUND = Top('unbound')


def diff(st, base):
    out = {}
    s = st
    chain = []
    while s is not base:
        if s is None:
            raise AssertionError('not a descendant state')
        chain.append(s)
        s = s.parent
    for s in reversed(chain):
        out.update(s.d)
    return out


def common(a, b, base):
    """`base` when both states descend from it, else their nearest common ancestor."""
    def chain(s):
        out = []
        while s is not None:
            out.append(s)
            s = s.parent
        return out
    ca, cb = chain(a), chain(b)
    ib = {id(x) for x in cb}
    if any(x is base for x in ca) and id(base) in ib:
        return base
    for x in ca:
        if id(x) in ib:
            return x
    raise AssertionError('unrelated states')


# ---- outcomes of statement blocks
class Out:
    __slots__ = ('k', 'v', 'st', 'g', 'a', 'b', 'base')

    def __init__(self, k, v=None, st=None, g=None, a=None, b=None, base=None):
        self.k, self.v, self.st, self.g, self.a, self.b, self.base = k, v, st, g, a, b, base


MAX_PHI = 96
SEQ = (tuple,)


class Interp:
    def __init__(self, project, models, facts=None):
        self.project = project
        self.models = models
        self.st = State()
        self.next_id = 1
        self.guards = {}
        self.events = []
        self.unmodelled = {}
        self.notes = []
        self.modframes = {}
        self.modloading = set()
        self.callstack = []
        self.hooks = {}
        self.ext_hooks = {}
        self.fault = None
        self.owning = False
        self.stores = 0
        self.cached = set()
        self.yields, self.next_yield = {}, None
        self.trace = None
        self.steps = 0
        self.max_steps = 1500000
        self.try_stack = []
        self.pos_facts = []     # polynomials known to be > 0
        self.depth = 0
        self.segmap = {}
        self.osizes = {}
        self.N = Poly.atom(('n', 'N'))
        self.eps = 0
        self.cur_line = (None, 0)
        self.reach = set()      # analysed functions

    # ------------------------------------------------------------------ utilities
    def fresh(self):
        self.next_id += 1
        return self.next_id

    def guard(self, key):
        if key not in self.guards:
            self.guards[key] = len(self.guards)
        return key

    def gorder(self, g):
        if g not in self.guards:
            self.guards[g] = len(self.guards)
        return self.guards[g]

    def event(self, kind, **kw):
        kw['kind'] = kind
        kw['fn'] = self.callstack[-1].qual if self.callstack else '<module>'
        kw['mod'], kw['line'] = self.cur_line
        kw['assume'] = dict(self.st.assume)
        self.events.append(kw)

    def note(self, msg):
        m = f'{msg} at {self.where()}'
        if m not in self.notes:
            self.notes.append(m)

    def where(self):
        return f'{self.cur_line[0]}:{self.cur_line[1]}'

    def top(self, why):
        self.note(why)
        if os.environ.get('FOLXSA_DEBUG'):
            import traceback
            print('TOP', why, self.where(), [f.qual for f in self.callstack][-4:], file=sys.stderr)
            print(''.join(traceback.format_stack()[-int(os.environ['FOLXSA_DEBUG']):-1]), file=sys.stderr)
        return Top(why)

    @property
    def compile_time(self):
        v = self.st.get('#ct', 0)
        while isinstance(v, Phi):
            v = self.rdeep(v)
            if isinstance(v, Phi):
                v = v.a
        return v

    @compile_time.setter
    def compile_time(self, v):
        self.st.set('#ct', v)

    # ------------------------------------------------------------------ guarded values
    def mkphi(self, g, a, b):
        if a is b:
            return a
        if type(a) is type(b) and a == b:
            if isinstance(a, Arr) and a.id != b.id:
                return a
            return a
        if a is DELETED or b is DELETED:
            return Phi(g, a, b) if False else (b if a is DELETED else a)
        if a is UNBOUND:
            return b
        if b is UNBOUND:
            return a
        if isinstance(a, Top) and isinstance(b, Top):
            return a
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.mkphi(g, x, y) for x, y in zip(a, b))
        if isinstance(a, NT) and isinstance(b, NT) and a.cls == b.cls and len(a.items) == len(b.items):
            return NT(a.cls, [self.mkphi(g, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, ListObj) and isinstance(b, ListObj) and len(a.items) == len(b.items):
            return ListObj([self.mkphi(g, x, y) for x, y in zip(a.items, b.items)], a.own or b.own)
        if isinstance(a, InstObj) and isinstance(b, InstObj) and a.cls == b.cls and \
                [k for k, _ in a.attrs] == [k for k, _ in b.attrs]:
            return InstObj(a.cls, [(k, self.mkphi(g, x, y)) for (k, x), (_, y) in zip(a.attrs, b.attrs)], a.own)
        if isinstance(a, DictObj) and isinstance(b, DictObj) and \
                [k for k, _ in a.items] == [k for k, _ in b.items]:
            return DictObj([(k, self.mkphi(g, x, y)) for (k, x), (_, y) in zip(a.items, b.items)], a.own, a.factory)
        a = self.restrict(a, g, True)
        b = self.restrict(b, g, False)
        # keep guards ordered along every path (smallest first)
        o = self.gorder(g)
        ga = a.g if isinstance(a, Phi) else None
        gb = b.g if isinstance(b, Phi) else None
        cand = [x for x in (ga, gb) if x is not None and self.gorder(x) < o]
        if cand:
            h = min(cand, key=self.gorder)
            return self.mkphi(h, self.mkphi(g, self.restrict(a, h, True), self.restrict(b, h, True)),
                              self.mkphi(g, self.restrict(a, h, False), self.restrict(b, h, False)))
        if type(a) is type(b) and a == b:
            return a
        p = Phi(g, a, b)
        if p.n > MAX_PHI:
            return self.top('too many guarded alternatives')
        return p

    def restrict(self, v, g, val):
        if isinstance(v, Phi):
            if v.g == g:
                return self.restrict(v.a if val else v.b, g, val)
            a, b = self.restrict(v.a, g, val), self.restrict(v.b, g, val)
            if a is v.a and b is v.b:
                return v
            return self.mkphi(v.g, a, b)
        if isinstance(v, tuple):
            n = tuple(self.restrict(x, g, val) for x in v)
            return n if any(x is not y for x, y in zip(n, v)) else v
        if isinstance(v, NT):
            n = tuple(self.restrict(x, g, val) for x in v.items)
            return NT(v.cls, n) if any(x is not y for x, y in zip(n, v.items)) else v
        return v

    def resolve(self, v):
        """Drop alternatives excluded by the current assumptions (top level)."""
        while isinstance(v, Phi):
            val = self.st.assume.get(v.g)
            if val is None:
                a, b = self.resolve(v.a), self.resolve(v.b)
                if a is not v.a or b is not v.b:
                    return self.mkphi(v.g, a, b)
                return v
            v = v.a if val else v.b
        if isinstance(v, ModelV) and v.kind == 'set' and self.st.has(('set', v.id)):
            return self.set_now(v, self.resolve(self.st.get(('set', v.id))))
        return v

    def set_now(self, v, c):
        """Current contents of a set that has been changed in place."""
        if isinstance(c, Phi):
            a, b = self.set_now(v, c.a), self.set_now(v, c.b)
            return self.mkphi(c.g, a, b)
        if not isinstance(c, tuple):
            return Top('set')
        n = ModelV('set', c)
        n.id = v.id
        return n

    def find_phi(self, v, deep=True):
        """Some unresolved guard inside v, or None."""
        if isinstance(v, Phi):
            return v.g
        if not deep:
            return None
        if isinstance(v, tuple):
            for x in v:
                g = self.find_phi(x)
                if g is not None:
                    return g
        elif isinstance(v, NT):
            for x in v.items:
                g = self.find_phi(x)
                if g is not None:
                    return g
        elif isinstance(v, Ref):
            o = self.st.get(v.addr)
            if isinstance(o, Phi):
                o = self.resolve(o)
                if isinstance(o, Phi):
                    return o.g
            if isinstance(o, ListObj):
                for x in o.items:
                    g = self.find_phi(self.rdeep(x))
                    if g is not None:
                        return g
            elif isinstance(o, DictObj):
                for _, x in o.items:
                    g = self.find_phi(self.rdeep(x))
                    if g is not None:
                        return g
        elif isinstance(v, AbsList):
            return self.find_phi(v.elem)
        elif isinstance(v, SliceV):
            return self.find_phi((v.lo, v.hi, v.step))
        return None

    def rdeep(self, v):
        """Resolve under the current assumptions, inside tuples too."""
        if isinstance(v, Phi):
            v2 = self.resolve(v)
            return v2 if isinstance(v2, Phi) else self.rdeep(v2)
        if isinstance(v, tuple):
            n = tuple(self.rdeep(x) for x in v)
            return n if any(x is not y for x, y in zip(n, v)) else v
        if isinstance(v, NT):
            n = tuple(self.rdeep(x) for x in v.items)
            return NT(v.cls, n) if any(x is not y for x, y in zip(n, v.items)) else v
        if isinstance(v, SliceV):
            return SliceV(self.rdeep(v.lo), self.rdeep(v.hi), self.rdeep(v.step))
        if isinstance(v, AbsList):
            return AbsList(self.rdeep(v.elem), v.size, v.axis)
        if isinstance(v, ModelV) and v.kind == 'set':
            return self.resolve(v)
        return v

    def merge_states(self, base, g, A, B):
        """New state on top of `base` equal to A where g and B elsewhere."""
        if A is B:
            return A
        base = common(A, B, base)
        da, db = diff(A, base), diff(B, base)
        C = State(base, {k: v for k, v in A.assume.items() if B.assume.get(k) == v}, A.dead if A.dead == B.dead else tuple(c for c in A.dead if c in B.dead))
        for k in set(da) | set(db):
            va = da[k] if k in da else base.get(k, UNBOUND)
            vb = db[k] if k in db else base.get(k, UNBOUND)
            if va is vb:
                C.d[k] = va
            elif va is DELETED or vb is DELETED:
                C.d[k] = vb if va is DELETED else va
            else:
                C.d[k] = self.mkphi(g, va, vb)
        return C

    def commit(self, base, st):
        if st is base:
            return
        base.d.update(diff(st, base))
        base.assume = dict(st.assume)
        base.dead = st.dead

    def fork(self, g, fa, fb):
        """Evaluate fa under g and fb under not g; join values and states."""
        val = self.st.assume.get(g)
        if val is not None:
            return fa() if val else fb()
        self.gorder(g)
        S = self.st
        A = S.child([(g, True)])
        B = S.child([(g, False)])
        ea = eb = None
        ra = rb = None
        self.st = A
        try:
            ra = fa()
        except AbsRaise as e:
            ea = e
        A = self.st
        self.st = B
        try:
            rb = fb()
        except AbsRaise as e:
            eb = e
        B = self.st
        self.st = S
        if ea and eb:
            self.commit(S, self.merge_states(S, g, A, B))
            raise ea
        if ea:
            self.pending(g, True, ea)
            self.commit(S, B)
            return rb
        if eb:
            self.pending(g, False, eb)
            self.commit(S, A)
            return ra
        self.commit(S, self.merge_states(S, g, A, B))
        return self.mkphi(g, ra, rb)

    def pending(self, g, val, e):
        self.event('maybe_raise', exc=e.exc, guard=(g, val), where=e.where, tried=bool(self.try_stack))
        if self.try_stack:
            self.try_stack[-1].append((g, val, e))

    def lift(self, fn, *args, deep=True):
        """Apply fn to values without guarded alternatives, distributing over them."""
        args = self.rdeep(args)
        g = self.find_phi(args, deep) if deep else None
        if not deep:
            for a in args:
                if isinstance(a, Phi):
                    g = a.g
                    break
        if g is None:
            return fn(*args)
        self.tick(5)
        return self.fork(g, lambda: self.lift(fn, *self.restrict(args, g, True), deep=deep),
                         lambda: self.lift(fn, *self.restrict(args, g, False), deep=deep))

    def tick(self, n=1):
        self.steps += n
        if self.steps > self.max_steps:
            raise Budget()

    # ------------------------------------------------------------------ heap
    def alloc(self, obj):
        a = ('o', self.fresh())
        self.st.set(a, obj)
        return Ref(a)

    def deref(self, ref):
        return self.resolve(self.st.get(ref.addr))

    def new_list(self, items, own=None):
        if self.owning and own is None and not self.callstack:
            own = CALLER
        return self.alloc(ListObj(items, own))

    def new_dict(self, items, own=None, factory=None):
        if self.owning and own is None and not self.callstack:
            own = CALLER
        return self.alloc(DictObj(items, own, factory))

    def update_obj(self, ref, obj):
        old = self.st.get(ref.addr)
        own = getattr(old, 'own', None)
        self.stores += 1
        if own:
            self.event('mutate', own=own, obj=old)
        self.st.set(ref.addr, obj)

    def touched(self, v, what):
        """An array (or one of its alternatives) is updated in place."""
        v = self.rdeep(v)
        self.stores += 1
        if isinstance(v, Phi):
            S = self.st
            for val, x in ((True, v.a), (False, v.b)):
                self.st = S.child([(v.g, val)])
                self.touched(x, what)
            self.st = S
        elif isinstance(v, Arr) and v.own:
            self.event('mutate', own=v.own, obj=v, how=what)

    # ------------------------------------------------------------------ frames / names
    def new_frame(self, parent, mod):
        f = self.fresh()
        self.st.set(('fp', f), (parent, mod))
        return f

    def lookup(self, frame, name, start=True):
        f = frame
        while f is not None:
            k = (f, name)
            if self.st.has(k):
                return self.resolve(self.st.get(k))
            f = self.st.get(('fp', f))[0]
        if name in BUILTINS:
            return ExtV('builtins.' + name)
        return None

    # ------------------------------------------------------------------ modules
    def frame_items(self, mod):
        fr = self.modframes.get(mod)
        out, s = {}, self.st
        chain = []
        while s is not None:
            chain.append(s)
            s = s.parent
        for s in reversed(chain):
            for k, v in s.d.items():
                if isinstance(k, tuple) and len(k) == 2 and k[0] == fr and isinstance(k[1], str):
                    out[k[1]] = v
        return [(k, self.resolve(v)) for k, v in out.items() if v is not DELETED]

    def load_module(self, name):
        if name in self.modframes:
            return self.modframes[name]
        tree = self.project.modules.get(name)
        if tree is None:
            return None
        fr = self.new_frame(None, name)
        self.modframes[name] = fr
        self.st.set((fr, '__name__'), name)
        pk = name if self.project.is_pkg[name] else name.rpartition('.')[0]
        self.st.set((fr, '__package__'), pk)
        saved = self.cur_line
        self.exec_toplevel(tree.body, fr, name)
        self.cur_line = saved
        return fr

    def exec_toplevel(self, body, fr, mod):
        cs, self.callstack = self.callstack, self.callstack + [FuncV(None, fr, mod, f'{mod}:<module>', (), ())]
        try:
            o = self.block(body, fr)
        finally:
            self.callstack = cs
        if o.k == 'exc':
            raise o.v
        st = self.join_fall(o)
        if st is not None and st is not self.st:
            raise Unknown('conditional module initialisation')

    def module_attr(self, mod, name):
        fr = self.load_module(mod)
        if fr is not None:
            if self.st.has((fr, name)):
                return self.resolve(self.st.get((fr, name)))
        sub = f'{mod}.{name}'
        if sub in self.project.modules:
            self.load_module(sub)
            return ExtV('project:' + sub)
        return None

    def import_name(self, dotted, name):
        """from dotted import name"""
        if dotted in self.project.modules:
            v = self.module_attr(dotted, name)
            if v is None:
                raise Unknown(f'cannot import {name} from {dotted}')
            return v
        return self.ext(f'{dotted}.{name}')

    def import_module(self, dotted):
        if dotted in self.project.modules:
            self.load_module(dotted)
            return ExtV('project:' + dotted)
        return self.ext(dotted)

    def ext(self, name):
        return self.models.ext_value(self, self.models.canon(name))

    # ------------------------------------------------------------------ statements
    def block(self, stmts, fr):
        for i, s in enumerate(stmts):
            o = self.stmt(s, fr)
            if o is None:
                continue
            if o.k == 'fall':
                self.st = o.st
                continue
            if o.k != 'phi':
                return o
            f = self.join_fall(o)
            if f is None:
                return o
            if f.parent is not None and not self.is_leaf_state(o, f):
                f.kill(self.left(o, ()))
            self.st = f
            rest = self.block(stmts[i + 1:], fr)
            return self.graft(o, rest)
        return Out('fall', st=self.st)

    def join_fall(self, o):
        if o.k == 'fall':
            return o.st
        if o.k == 'phi':
            a, b = self.join_fall(o.a), self.join_fall(o.b)
            if a is None:
                return b
            if b is None:
                return a
            return self.merge_states(o.base, o.g, a, b)
        return None

    def is_leaf_state(self, o, f):
        return any(l.k == 'fall' and l.st is f for l in self.leaves(o))

    def left(self, o, path):
        """Guards of the leaves of o that do not continue with the next statement."""
        if o.k == 'phi':
            return self.left(o.a, path + ((o.g, True),)) + self.left(o.b, path + ((o.g, False),))
        return [] if o.k == 'fall' or not path else [frozenset(path)]

    def graft(self, o, rest):
        """Replace fall leaves of o by `rest`."""
        if o.k == 'fall':
            return rest
        if o.k == 'phi':
            return Out('phi', g=o.g, a=self.graft(o.a, rest), b=self.graft(o.b, rest), base=o.base)
        return o

    def map_leaves(self, o, f):
        if o.k == 'phi':
            return Out('phi', g=o.g, a=self.map_leaves(o.a, f), b=self.map_leaves(o.b, f), base=o.base)
        return f(o)

    def leaves(self, o):
        if o.k == 'phi':
            return self.leaves(o.a) + self.leaves(o.b)
        return [o]

    def stmt(self, s, fr):
        self.tick()
        self.cur_line = (self.cur_line[0] if not self.callstack else self.callstack[-1].mod, s.lineno)
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unknown(f'statement {type(s).__name__}')
        try:
            return m(s, fr)
        except AbsRaise as e:
            if e.where is None:
                e.where = self.where()
            return Out('exc', v=e, st=self.st)

    def s_Pass(self, s, fr):
        return None

    def s_Global(self, s, fr):
        for n in s.names:
            self.st.set((fr, '#global', n), True)
        return None

    def s_Nonlocal(self, s, fr):
        for n in s.names:
            f = self.st.get(('fp', fr))[0]
            while f is not None and not self.st.has((f, n)):
                f = self.st.get(('fp', f))[0]
            self.st.set((fr, '#nonlocal', n), f)
        return None

    def s_Import(self, s, fr):
        for a in s.names:
            v = self.import_module(a.name)
            if a.asname:
                self.st.set((fr, a.asname), v)
            else:
                top = a.name.split('.')[0]
                self.st.set((fr, top), self.import_module(top))
        return None

    def s_ImportFrom(self, s, fr):
        mod = self.frame_mod(fr)
        if s.level:
            base = mod if self.project.is_pkg.get(mod) else mod.rpartition('.')[0]
            for _ in range(s.level - 1):
                base = base.rpartition('.')[0]
            dotted = base + ('.' + s.module if s.module else '')
        else:
            dotted = s.module
        for a in s.names:
            if a.name == '*':
                f2 = self.load_module(dotted)
                if f2 is None:
                    continue
                for (k, v) in list(self.all_items(f2)):
                    if not k.startswith('_'):
                        self.st.set((fr, k), v)
                continue
            self.st.set((fr, a.asname or a.name), self.import_name(dotted, a.name))
        return None

    def all_items(self, frame):
        seen = {}
        s = self.st
        while s is not None:
            for k, v in s.d.items():
                if isinstance(k, tuple) and len(k) == 2 and k[0] == frame and isinstance(k[1], str) and k not in seen:
                    seen[k] = v
            s = s.parent
        return [(k[1], v) for k, v in seen.items()]

    def frame_mod(self, fr):
        return self.st.get(('fp', fr))[1]

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return None
        self.eval(s.value, fr)
        return None

    def s_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)
        return None

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)
        return None

    def s_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.eval(ast.Name(t.id, ast.Load()), fr)
        elif isinstance(t, ast.Attribute):
            obj = self.eval(t.value, fr)
            old = self.getattr(obj, t.attr)
        else:
            obj = self.eval(t.value, fr)
            idx = self.eval(t.slice, fr)
            old = self.getitem(obj, idx)
        v = self.eval(s.value, fr)
        new = None
        if isinstance(old, Ref):
            o = self.deref(old)
            if isinstance(o, ListObj) and isinstance(s.op, ast.Add):
                items = self.iterate(v)
                if isinstance(items, AbsList):
                    raise Unknown('list += unknown sequence')
                self.update_obj(old, ListObj(o.items + tuple(items), o.own))
                new = old
        if new is None:
            if self.owning and (not isinstance(t, ast.Subscript) or not isinstance(self.rdeep(obj), Arr)):
                self.touched(old, 'augmented assignment')
            new = self.binop(s.op, old, v)
        if isinstance(t, ast.Name):
            self.assign(t, new, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(obj, t.attr, new)
        else:
            self.setitem(obj, idx, new, t.value, fr)
        return None

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.st.set((fr, t.id), DELETED)
            elif isinstance(t, ast.Subscript):
                obj = self.eval(t.value, fr)
                idx = self.eval(t.slice, fr)
                self.delitem(obj, idx)
            elif isinstance(t, ast.Attribute):
                obj = self.eval(t.value, fr)
                self.delattr(obj, t.attr)
        return None

    def s_Return(self, s, fr):
        v = self.eval(s.value, fr) if s.value is not None else None
        return Out('ret', v=v, st=self.st)

    def s_Raise(self, s, fr):
        if s.exc is None:
            e = self.lookup(fr, '#exc')
            return Out('exc', v=e if isinstance(e, AbsRaise) else AbsRaise('reraise', self.where()), st=self.st)
        v = self.eval(s.exc, fr)
        if isinstance(v, ModelV) and v.kind == 'exc' and isinstance(v.data, AbsRaise):
            return Out('exc', v=v.data, st=self.st)
        return Out('exc', v=AbsRaise(v, self.where()), st=self.st)

    def s_Assert(self, s, fr):
        v = self.eval(s.test, fr)
        t = self.truth(v)
        if isinstance(t, Top):
            return None
        return self.branch(t, lambda: Out('fall', st=self.st),
                           lambda: Out('exc', v=AbsRaise(ExtV('builtins.AssertionError'), self.where()), st=self.st))

    def branch(self, t, fa, fb):
        """t: bool or Phi over bools; fa/fb run with self.st set and return Out."""
        t = self.resolve(t)
        if isinstance(t, Phi):
            g = t.g
            self.gorder(g)
            S = self.st
            A, B = S.child([(g, True)]), S.child([(g, False)])
            self.st = A
            oa = self.branch(t.a, fa, fb)
            self.st = B
            ob = self.branch(t.b, fa, fb)
            self.st = S
            if oa.k == 'fall' and ob.k == 'fall':
                return Out('fall', st=self.merge_states(S, g, oa.st, ob.st))
            return Out('phi', g=g, a=oa, b=ob, base=S)
        return fa() if t else fb()

    def s_If(self, s, fr):
        t = self.truth(self.eval(s.test, fr))
        if isinstance(t, Top):
            t = Phi(self.guard(('?', id(s), self.fresh())), True, False)
        return self.branch(t, lambda: self.block(s.body, fr), lambda: self.block(s.orelse, fr))

    def s_For(self, s, fr):
        it = self.eval(s.iter, fr)
        return self.for_lifted(s, it, fr)

    def for_lifted(self, s, it, fr):
        it = self.rdeep(it)
        if isinstance(it, Phi):
            g = it.g
            S = self.st
            A, B = S.child([(g, True)]), S.child([(g, False)])
            self.st = A
            oa = self.for_lifted(s, it.a, fr)
            self.st = B
            ob = self.for_lifted(s, it.b, fr)
            self.st = S
            if oa.k == 'fall' and ob.k == 'fall':
                return Out('fall', st=self.merge_states(S, g, oa.st, ob.st))
            return Out('phi', g=g, a=oa, b=ob, base=S)
        items = self.iterate(it)
        if isinstance(items, Phi):
            return self.for_lifted(s, items, fr)
        if isinstance(items, (AbsList, Top)):
            # unknown number of iterations: run the body once on the summary element, join with zero
            elem = items.elem if isinstance(items, AbsList) else Top('loop element')
            g = self.guard(('loop', id(s), self.fresh()))
            def body():
                self.assign(s.target, elem, fr)
                o = self.block(s.body, fr)
                return self.map_leaves(o, lambda l: Out('fall', st=l.st) if l.k in ('cont', 'brk') else l)
            self.note('loop over a sequence of unknown length summarised')
            return self.branch(Phi(g, True, False), body, lambda: Out('fall', st=self.st))
        return self.run_iters(s, list(items), 0, fr)

    def run_iters(self, s, items, i, fr):
        while i < len(items):
            try:
                self.assign(s.target, items[i], fr)
            except AbsRaise as e:
                return Out('exc', v=e, st=self.st)
            o = self.block(s.body, fr)
            o = self.map_leaves(o, lambda l: Out('fall', st=l.st) if l.k == 'cont' else l)
            i += 1
            if o.k == 'fall':
                self.st = o.st
                continue
            if o.k == 'brk':
                return Out('fall', st=o.st)
            if o.k != 'phi':
                return o
            f = self.join_fall(o)
            if f is None:
                return self.map_leaves(o, lambda l: Out('fall', st=l.st) if l.k == 'brk' else l)
            self.st = f
            rest = self.run_iters(s, items, i, fr)
            o = self.graft(o, rest)
            return self.map_leaves(o, lambda l: Out('fall', st=l.st) if l.k == 'brk' else l)
        if s.orelse:
            return self.block(s.orelse, fr)
        return Out('fall', st=self.st)

    def s_While(self, s, fr, n=0):
        if n > 40:
            raise Unknown('while loop bound')
        t = self.truth(self.eval(s.test, fr))
        if isinstance(t, Top):
            t = Phi(self.guard(('?', id(s), self.fresh())), True, False)

        def body():
            o = self.block(s.body, fr)
            o = self.map_leaves(o, lambda l: Out('fall', st=l.st) if l.k == 'cont' else l)
            f = self.join_fall(o)
            if f is None:
                return self.map_leaves(o, lambda l: Out('fall', st=l.st) if l.k == 'brk' else l)
            self.st = f
            rest = self.s_While(s, fr, n + 1)
            o = self.graft(o, rest)
            return self.map_leaves(o, lambda l: Out('fall', st=l.st) if l.k == 'brk' else l)
        return self.branch(t, body, lambda: Out('fall', st=self.st))

    def s_Break(self, s, fr):
        return Out('brk', st=self.st)

    def s_Continue(self, s, fr):
        return Out('cont', st=self.st)

    def s_With(self, s, fr):
        def go(i):
            if i == len(s.items):
                return self.block(s.body, fr)
            it = s.items[i]
            m = self.rdeep(self.eval(it.context_expr, fr))

            def bind(v):
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, fr)
            if isinstance(m, ModelV) and m.kind == 'ctx' and m.data[0] == 'cm':
                return self.with_generator(m, bind, lambda: go(i + 1))
            bind(self.ctx_enter(m))
            o = go(i + 1)

            def leave(l):
                self.st = l.st
                if l.k == 'exc':
                    if self.ctx_exit(m, l.v) is True:
                        l = Out('fall', st=self.st)
                else:
                    self.ctx_exit(m, None)
                l.st = self.st
                return l
            if o.k == 'phi' and all(l.k == 'fall' for l in self.leaves(o)):
                self.st = self.join_fall(o)
                return leave(Out('fall', st=self.st))
            return self.map_leaves(o, leave)
        return go(0)

    def with_generator(self, m, bind, rest):
        """The body of the statement runs where the generator function yields."""
        _, fn, args, kwargs = m.data
        box = []

        def at_yield(v):
            if box:
                raise AbsRaise(ModelV('excinst', ('builtins.RuntimeError', 'generator did not stop')), self.where(), True)
            box.append(None)
            bind(v)
            o = rest()
            ls = self.leaves(o)
            if all(l.k == 'fall' for l in ls):
                self.st = self.join_fall(o)
                return None
            if o.k == 'phi':
                raise Unknown('several ways out of a block under a generator context')
            self.st = o.st
            if o.k == 'exc':
                raise o.v
            box[0] = o
            return None
        self.next_yield = (fn.node, at_yield)
        try:
            self.call_func(fn, args, dict(kwargs))
        finally:
            self.next_yield = None
        if not box:
            raise Unknown('generator context without a yield')
        if box[0] is not None:
            box[0].st = self.st
            return box[0]
        return Out('fall', st=self.st)

    def e_Yield(self, e, fr):
        v = self.eval(e.value, fr) if e.value is not None else None
        f = fr
        while f is not None:
            cb = self.yields.get(f)
            if cb is not None:
                return cb(v)
            f = self.st.get(('fp', f))[0]
        raise Unknown('yield')

    def e_YieldFrom(self, e, fr):
        it = self.iterate(self.eval(e.value, fr))
        if isinstance(it, (Top, AbsList)):
            raise Unknown('yield from a sequence of unknown length')
        for v in it:
            cb = self.yields.get(fr)
            if cb is None:
                raise Unknown('yield')
            cb(v)
        return None

    def exc_type(self, e):
        x = e.exc
        if isinstance(x, ModelV) and x.kind == 'excinst':
            return ExtV(x.data[0])
        if isinstance(x, Ref) and isinstance(self.deref(x), InstObj):
            return self.deref(x).cls
        if isinstance(x, (ExtV, ClassV)):
            return x
        return Top('exception type')

    def ctx_enter(self, m):
        if isinstance(m, Ref):
            return self.call(self.getattr(m, '__enter__'), (), {})
        return self.models.ctx_enter(self, m)

    def ctx_exit(self, m, exc):
        if isinstance(m, Ref):
            args = (None, None, None) if exc is None else (self.exc_type(exc), ModelV('exc', exc), Top('traceback'))
            r = self.call(self.getattr(m, '__exit__'), args, {})
            return r if isinstance(r, bool) else None
        return self.models.ctx_exit(self, m)

    def s_Try(self, s, fr):
        self.try_stack.append([])
        S = self.st
        pre = S.child()
        self.st = S.child()
        body_events = len(self.events)
        o = self.block(s.body, fr)
        pend = self.try_stack.pop()
        self.event('try', node=s, handlers=[self.handler_types(h, fr) for h in s.handlers])
        if s.orelse:
            f = self.join_fall(o)
            if f is not None:
                self.st = f
                o = self.graft(o, self.block(s.orelse, fr))

        def handle(e, st):
            """Outcome of the first matching handler for exception e in state st."""
            self.st = st
            for h in s.handlers:
                if self.handler_matches(h, e, fr):
                    if h.name:
                        self.st.set((fr, h.name), ModelV('exc', e))
                    self.st.set((fr, '#exc'), e)
                    self.event('handler', node=h, exc=e.exc, types=self.handler_types(h, fr))
                    return self.block(h.body, fr)
            return Out('exc', v=e, st=st)

        def leaf(l):
            return handle(l.v, l.st) if l.k == 'exc' else l
        definite = o.k != 'phi'
        o = self.map_leaves(o, leaf)
        for g, val, e in pend:
            h = handle(e, pre.child([(g, val)]))
            if h.k == 'exc':
                continue
            a, b = (h, o) if val else (o, h)
            o = Out('phi', g=g, a=a, b=b, base=S)
        if s.handlers and not all(l.k == 'exc' for l in self.leaves(o)):
            g = self.guard(('raises', id(s), self.fresh()))
            for h in s.handlers:
                if not self.external_handler(h, fr):
                    continue
                e = AbsRaise(ModelV('anyexc', id(h)), self.where())
                self.st = pre.child([(g, True)])
                if h.name:
                    self.st.set((fr, h.name), ModelV('exc', e))
                self.st.set((fr, '#exc'), e)
                ho = self.block(h.body, fr)
                self.event('handler_outcome', node=h, kinds=[l.k for l in self.leaves(ho)],
                           types=self.handler_types(h, fr))
                if ho.k == 'exc':
                    continue
                o = Out('phi', g=g, a=ho, b=o, base=S)
                break
        if s.finalbody:
            def fin(l):
                self.st = l.st
                r = self.block(s.finalbody, fr)
                if r.k == 'fall':
                    l.st = r.st
                    return l
                return r
            o = self.map_leaves(o, fin)
        if all(l.k == 'fall' for l in self.leaves(o)):
            st = self.join_fall(o)
            return Out('fall', st=st)
        return o

    def handler_types(self, h, fr):
        if h.type is None:
            return ('builtins.BaseException',)
        try:
            v = self.eval(h.type, fr)
        except Exception:
            return ('?',)
        vs = v if isinstance(v, tuple) else (v,)
        return tuple(x.name if isinstance(x, ExtV) else getattr(x, 'qual', '?') for x in vs)

    def handler_matches(self, h, e, fr):
        ts = self.handler_types(h, fr)
        name = self.exc_name(e.exc)
        for t in ts:
            if t in ('builtins.Exception', 'builtins.BaseException'):
                return True
            if t == name:
                return True
            if name and t in EXC_PARENTS.get(name, ()):
                return True
        return False

    def exc_parents(self, n):
        return EXC_PARENTS.get(n, ())

    def exc_name(self, x):
        if isinstance(x, ExtV):
            return x.name
        if isinstance(x, ModelV) and x.kind == 'excinst':
            return x.data[0]
        if isinstance(x, ClassV):
            return x.qual
        return None

    def external_handler(self, h, fr):
        return True

    def s_FunctionDef(self, s, fr):
        v = self.make_func(s, fr)
        for d in reversed(s.decorator_list):
            dec = self.eval(d, fr)
            v = self.apply_decorator(dec, v, s)
        self.assign(ast.Name(s.name, ast.Store()), v, fr)
        return None

    s_AsyncFunctionDef = s_FunctionDef

    def apply_decorator(self, dec, v, s):
        if isinstance(dec, ExtV):
            n = dec.name
            if n == 'builtins.property' or n == 'functools.cached_property':
                return PropV('property', v)
            if n == 'builtins.classmethod':
                return PropV('classmethod', v)
            if n == 'builtins.staticmethod':
                return PropV('staticmethod', v)
            if n == 'typing.overload':
                return v
        return self.call(dec, (v,), {})

    def make_func(self, s, fr, name=None):
        defaults = tuple(self.eval(d, fr) for d in s.args.defaults)
        kwd = tuple((a.arg, self.eval(d, fr)) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None)
        mod = self.frame_mod(fr)
        encl = self.callstack[-1].qual if self.callstack and not self.callstack[-1].qual.endswith('<module>') else mod
        cq = self.st.get((fr, '#classqual'))
        base = cq or encl
        nm = name or getattr(s, 'name', '<lambda>')
        return FuncV(s, fr, mod, f'{base}.{nm}', defaults, kwd)

    def s_ClassDef(self, s, fr):
        mod = self.frame_mod(fr)
        bases = []
        for b in s.bases:
            v = self.eval(b, fr)
            bases.append(v)
        cf = self.new_frame(fr, mod)
        qual = f'{mod}.{s.name}'
        self.st.set((cf, '#classqual'), qual)
        kind = 'class'
        for b in bases:
            if isinstance(b, ExtV) and b.name in ('typing.NamedTuple',):
                kind = 'nt'
            elif isinstance(b, ExtV) and b.name in ('enum.IntFlag', 'enum.Flag'):
                kind = 'flag'
            elif isinstance(b, ExtV) and b.name in ('enum.IntEnum', 'enum.Enum'):
                kind = 'flag'
            elif isinstance(b, ClassV) and b.kind == 'nt':
                kind = 'nt'
            elif isinstance(b, ExtV) and b.name in EXC_PARENTS or isinstance(b, ExtV) and b.name.endswith(('Error', 'Exception')):
                kind = 'exc'
        fields, defaults = [], {}
        for b in bases:
            if isinstance(b, ClassV):
                fields += list(b.fields)
                defaults.update(dict(b.defaults))
        o = None
        for st in s.body:
            if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                if st.target.id not in fields:
                    fields.append(st.target.id)
                if st.value is not None:
                    v = self.eval(st.value, cf)
                    defaults[st.target.id] = v
                    self.st.set((cf, st.target.id), v)
                continue
            o = self.stmt(st, cf)
            if o is not None and o.k == 'exc':
                return o
            if o is not None and o.k == 'fall':
                self.st = o.st
        cls = ClassV(s.name, qual, tuple(bases), cf, mod, kind, tuple(fields), tuple(defaults.items()), s)
        if kind == 'flag':
            for (n, v) in list(self.all_items(cf)):
                if isinstance(v, int) and not isinstance(v, bool):
                    self.st.set((cf, n), FlagV(cls, v))
        v = cls
        for d in reversed(s.decorator_list):
            if isinstance(d, ast.Call):
                dec = self.eval(d.func, fr)
                if not (isinstance(dec, ExtV) and dec.name == 'dataclasses.dataclass'):
                    dec = self.eval(d, fr)
            else:
                dec = self.eval(d, fr)
            nm = dec.name if isinstance(dec, ExtV) else (dec.data[0].name if isinstance(dec, ModelV) and dec.kind == 'partial' and isinstance(dec.data[0], ExtV) else None)
            if nm in ('dataclasses.dataclass', 'jax.tree_util.register_pytree_node_class'):
                if nm == 'dataclasses.dataclass':
                    v = ClassV(cls.name, cls.qual, cls.bases, cls.frame, cls.mod, 'dataclass', cls.fields, cls.defaults, s)
                continue
            v = self.call(dec, (v,), {})
        self.st.set((fr, s.name), v)
        return None

    # ------------------------------------------------------------------ assignment
    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            if self.st.get((fr, '#global', t.id)):
                mf = self.modframes[self.frame_mod(fr)]
                self.event('global_write', name=t.id)
                self.st.set((mf, t.id), v)
                return
            nl = self.st.get((fr, '#nonlocal', t.id))
            if nl is not None:
                self.st.set((nl, t.id), v)
                return
            self.st.set((fr, t.id), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.rdeep(v)
            if isinstance(v, Phi):
                # distribute element-wise when both alternatives unpack to the same number of targets
                n = len(t.elts)
                parts = self.lift(lambda x: self.unpack(t, x, fr), v, deep=False)
                if isinstance(parts, tuple) and len(parts) == n:
                    for tt, x in zip(t.elts, parts):
                        self.assign(tt.value if isinstance(tt, ast.Starred) else tt, x, fr)
                    return
                raise Unknown('unpacking of guarded value')
            parts = self.unpack(t, v, fr)
            for tt, x in zip(t.elts, parts):
                self.assign(tt.value if isinstance(tt, ast.Starred) else tt, x, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            obj = self.eval(t.value, fr)
            self.setitem(obj, self.eval(t.slice, fr), v, t.value, fr)
        else:
            raise Unknown('assignment target')

    def unpack(self, t, v, fr):
        n = len(t.elts)
        stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        it = self.iterate(v)
        if isinstance(it, Top):
            return tuple(Top('unpacked unknown') for _ in range(n))
        if isinstance(it, AbsList):
            return tuple(it.elem for _ in range(n))
        it = list(it)
        if not stars:
            if len(it) != n:
                raise AbsRaise(ModelV('excinst', ('builtins.ValueError', f'unpack {len(it)} values into {n}')), self.where(), True)
            return tuple(it)
        i = stars[0]
        k = n - i - 1
        if len(it) < n - 1:
            raise AbsRaise(ModelV('excinst', ('builtins.ValueError', 'unpack')), self.where(), True)
        mid = it[i:len(it) - k]
        return tuple(it[:i]) + (self.new_list(mid),) + tuple(it[len(it) - k:])

    # ------------------------------------------------------------------ expressions
    def eval(self, e, fr):
        self.tick()
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unknown(f'expression {type(e).__name__}')
        return m(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        v = self.lookup(fr, e.id)
        if v is None and not self.bound(fr, e.id):
            if hasattr(e, 'lineno'):
                self.cur_line = (self.cur_line[0], e.lineno)
            raise AbsRaise(ModelV('excinst', ('builtins.NameError', e.id)), self.where(), True)
        if v is UNBOUND:
            return self.top(f'possibly unbound {e.id}')
        return v

    def bound(self, frame, name):
        f = frame
        while f is not None:
            if self.st.has((f, name)):
                return True
            f = self.st.get(('fp', f))[0]
        return name in BUILTINS

    def e_Tuple(self, e, fr):
        out = self.elems(e.elts, fr)
        return out if isinstance(out, (Top, Phi, AbsList)) else tuple(out)

    def e_List(self, e, fr):
        out = self.elems(e.elts, fr)
        if isinstance(out, (Top, AbsList)):
            return out
        if isinstance(out, Phi):
            return self.lift(lambda t: self.new_list(t), out, deep=False)
        return self.new_list(out)

    def elems(self, elts, fr):
        """tuple of element values; guarded tuple when a starred element has guarded length."""
        acc = ()
        guarded = False
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, fr)

                def app(a, w):
                    it = self.iterate(w)
                    if isinstance(it, (Top, AbsList)):
                        return Top('starred unknown sequence') if not (a == () and len(elts) == 1) else it
                    return a + tuple(it)
            else:
                v = (self.eval(x, fr),)

                def app(a, w):
                    return a + w
            if isinstance(acc, (Top, AbsList)):
                return Top('sequence')
            if isinstance(x, ast.Starred):
                vv = self.rdeep(v)
                if isinstance(vv, Phi) or isinstance(acc, Phi) or self.seq_guarded(vv):
                    acc = self.lift(app, acc, vv, deep=False) if not self.seq_guarded(vv) else self.lift_seq(app, acc, vv)
                else:
                    acc = app(acc, vv)
            else:
                acc = self.lift(lambda a: app(a, v), acc, deep=False) if isinstance(acc, Phi) else app(acc, v)
        return acc

    def seq_guarded(self, v):
        return isinstance(v, Ref) and isinstance(self.resolve(self.st.get(v.addr)), Phi)

    def lift_seq(self, app, acc, v):
        o = self.resolve(self.st.get(v.addr))
        if isinstance(o, Phi):
            g = o.g
            return self.fork(g, lambda: self.lift_seq(app, acc, v), lambda: self.lift_seq(app, acc, v))
        return self.lift(lambda a: app(a, v), acc, deep=False)

    def e_Set(self, e, fr):
        return ModelV('set', tuple(dict.fromkeys(self.elems(e.elts, fr))))

    def e_Dict(self, e, fr):
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.eval(v, fr)
                o = self.deref(d) if isinstance(d, Ref) else None
                if not isinstance(o, DictObj):
                    return self.top('dict unpacking')
                items += list(o.items)
            else:
                items.append((self.eval(k, fr), self.eval(v, fr)))
        return self.new_dict(dict_update((), items))

    def e_Lambda(self, e, fr):
        return self.make_func(e, fr)

    def e_IfExp(self, e, fr):
        t = self.truth(self.eval(e.test, fr))
        if isinstance(t, Top):
            t = Phi(self.guard(('?', id(e), self.fresh())), True, False)
        return self.select(t, lambda: self.eval(e.body, fr), lambda: self.eval(e.orelse, fr))

    def select(self, t, fa, fb):
        t = self.resolve(t)
        if isinstance(t, Phi):
            return self.fork(t.g, lambda: self.select(t.a, fa, fb), lambda: self.select(t.b, fa, fb))
        return fa() if t else fb()

    def e_BoolOp(self, e, fr):
        return self.boolop(e.op, e.values, fr)

    def boolop(self, op, values, fr):
        v = self.eval(values[0], fr)
        if len(values) == 1:
            return v
        t = self.truth(v)
        is_and = isinstance(op, ast.And)
        if isinstance(t, Top):
            rest = self.boolop(op, values[1:], fr)
            rt = self.truth(rest)
            if rt is False and is_and:
                return False
            if rt is True and not is_and:
                return True
            return Top('boolean')
        if isinstance(t, Phi):
            return self.select(t, lambda: self.boolop(op, values[1:], fr) if is_and else self.rdeep(v),
                               lambda: self.rdeep(v) if is_and else self.boolop(op, values[1:], fr))
        if t == is_and:
            return self.boolop(op, values[1:], fr)
        return v

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            if isinstance(t, Top):
                return t
            return self.lift(lambda x: not x, t)
        return self.lift(lambda x: self.models.unop(self, e.op, x), v, deep=False)

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        self.cur_line = (self.cur_line[0], e.lineno)
        return self.binop(e.op, a, b)

    def binop(self, op, a, b):
        r = self.lift(lambda x, y: self.models.binop(self, op, x, y), a, b, deep=False)
        if self.owning:
            from . import own
            r = own.fresh(self, r)
        return r

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, fr)
            c = self.compare(op, left, right)
            if res is None:
                res = c
            else:
                t = self.truth(res)
                res = c if t is True else (False if t is False else
                      (Top('compare') if isinstance(t, Top) else self.select(t, lambda: self.rdeep(c), lambda: False)))
            left = right
        return res

    def compare(self, op, a, b):
        deep = isinstance(op, (ast.In, ast.NotIn, ast.Eq, ast.NotEq))
        return self.lift(lambda x, y: self.models.compare(self, op, x, y), a, b, deep=deep)

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        f = fr
        while self.st.get((f, '#comp')):
            f = self.st.get(('fp', f))[0]
        self.assign(e.target, v, f)
        return v

    def e_JoinedStr(self, e, fr):
        ps = []
        for x in e.values:
            if isinstance(x, ast.FormattedValue):
                v = self.rdeep(self.eval(x.value, fr))
                if x.format_spec is not None or x.conversion not in (-1, 115) or not isinstance(v, (str, int)) or isinstance(v, str) and v in ('<str>', '<formatted>'):
                    return '<formatted>'
                ps.append(str(v))
            else:
                ps.append(x.value)
        return ''.join(ps)

    def e_Starred(self, e, fr):
        return self.eval(e.value, fr)

    def e_Attribute(self, e, fr):
        v = self.eval(e.value, fr)
        self.cur_line = (self.cur_line[0], e.lineno)
        return self.getattr(v, e.attr)

    def e_Subscript(self, e, fr):
        v = self.eval(e.value, fr)
        i = self.eval(e.slice, fr)
        self.cur_line = (self.cur_line[0], e.lineno)
        return self.getitem(v, i)

    def e_Slice(self, e, fr):
        f = lambda x: self.eval(x, fr) if x is not None else None
        return SliceV(f(e.lower), f(e.upper), f(e.step))

    def e_Call(self, e, fr):
        f = self.eval(e.func, fr)
        args = self.elems(e.args, fr)
        kwargs = {}
        for k in e.keywords:
            v = self.eval(k.value, fr)
            if k.arg is None:
                v = self.rdeep(v)
                o = self.deref(v) if isinstance(v, Ref) else v
                if isinstance(o, DictObj):
                    for kk, vv in o.items:
                        kwargs[kk] = vv
                elif isinstance(o, Phi) or isinstance(v, Phi):
                    return self.top('guarded keyword arguments')
                else:
                    return self.top('unknown keyword arguments')
            else:
                kwargs[k.arg] = v
        self.cur_line = (self.callstack[-1].mod if self.callstack else None, e.lineno)
        if isinstance(f, ExtV) and f.name == 'builtins.super':
            return ModelV('super', (self.lookup(fr, '#self'), self.callstack[-1].cls))
        if isinstance(f, ExtV) and f.name == 'builtins.locals':
            return self.top('locals()')
        if isinstance(args, Phi):
            return self.lift(lambda a: self.call(f, a, kwargs), args, deep=False)
        if isinstance(args, (Top, AbsList)):
            return self.call_unknown_args(f, args, kwargs)
        return self.call(f, args, kwargs)

    def call_unknown_args(self, f, args, kwargs):
        return self.models.call_star(self, f, args, kwargs)

    def e_ListComp(self, e, fr):
        r = self.comp(e, fr, 'list')
        if isinstance(r, (Top, AbsList)):
            return r
        if isinstance(r, Phi):
            return self.lift(lambda t: self.new_list(t) if isinstance(t, tuple) else t, r, deep=False)
        return self.new_list(r)

    def e_GeneratorExp(self, e, fr):
        r = self.comp(e, fr, 'gen')
        if isinstance(r, (Top, AbsList)):
            return r
        if isinstance(r, Phi):
            return self.lift(lambda t: ModelV('gen', t) if isinstance(t, tuple) else t, r, deep=False)
        return ModelV('gen', r)

    def e_SetComp(self, e, fr):
        r = self.comp(e, fr, 'set')
        if isinstance(r, tuple):
            return ModelV('set', tuple(dict.fromkeys(r)))
        return Top('set')

    def e_DictComp(self, e, fr):
        e2 = ast.ListComp(ast.Tuple([e.key, e.value], ast.Load()), e.generators)
        ast.copy_location(e2, e)
        r = self.comp(e2, fr, 'list')
        if isinstance(r, tuple):
            return self.new_dict(dict_update((), r))
        return Top('dict comprehension')

    def comp(self, e, fr, kind):
        cf = self.new_frame(fr, self.frame_mod(fr))
        self.st.set((cf, '#comp'), True)
        return self.comp_gen(e, e.generators, cf)

    def comp_gen(self, e, gens, cf):
        """tuple of values (or guarded tuple / AbsList)."""
        if not gens:
            return (self.eval(e.elt, cf),)
        g = gens[0]
        it = self.rdeep(self.eval(g.iter, cf))

        def over(src):
            items = self.iterate(src)
            if isinstance(items, Top):
                return items
            if isinstance(items, AbsList):
                self.assign(g.target, items.elem, cf)
                for c in g.ifs:
                    self.eval(c, cf)
                r = self.comp_gen(e, gens[1:], cf)
                if isinstance(r, tuple) and len(r) == 1:
                    return AbsList(r[0], items.size if not g.ifs else Top('filtered'), items.axis)
                return Top('nested comprehension over unknown sequence')
            acc = ()
            for x in items:
                self.assign(g.target, x, cf)
                acc = self.comp_step(e, g, gens, cf, acc, 0)
                if isinstance(acc, Top):
                    return acc
            return acc
        if isinstance(it, Phi) or self.seq_guarded(it):
            if isinstance(it, Phi):
                return self.lift(over, it, deep=False)
            return self.lift_seq(lambda a, w: over(w), (), it)
        return over(it)

    def comp_step(self, e, g, gens, cf, acc, ci):
        if ci < len(g.ifs):
            t = self.truth(self.eval(g.ifs[ci], cf))
            if isinstance(t, Top):
                t = Phi(self.guard(('?', id(g), self.fresh())), True, False)
            return self.select(t, lambda: self.comp_step(e, g, gens, cf, self.rdeep(acc), ci + 1), lambda: self.rdeep(acc))
        r = self.comp_gen(e, gens[1:], cf)
        if isinstance(acc, Phi) or isinstance(r, Phi):
            return self.lift(lambda a, b: a + b if isinstance(a, tuple) and isinstance(b, tuple) else Top('comp'), acc, r, deep=False)
        if isinstance(acc, tuple) and isinstance(r, tuple):
            return acc + r
        return Top('comprehension')

    # ------------------------------------------------------------------ truth / iteration
    def truth(self, v):
        v = self.rdeep(v)
        if isinstance(v, Phi):
            return self.lift(self.truth, v, deep=False)
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, (int, float, Fraction, str)):
            return bool(v)
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, Poly):
            return self.models.poly_cmp(self, '!=', v, ZERO)
        if isinstance(v, Ref):
            o = self.deref(v)
            if isinstance(o, Phi):
                return self.fork(o.g, lambda: self.truth(v), lambda: self.truth(v))
            if isinstance(o, (ListObj, DictObj)):
                return len(o.items) > 0
            return True
        if isinstance(v, FlagV):
            return v.val != 0
        if isinstance(v, (FuncV, ClassV, ModelV, ExtV, BoundM, MethV, NT, Obj)):
            if isinstance(v, ModelV) and v.kind in ('set', 'gen'):
                return len(v.data) > 0 if v.kind == 'set' else True
            if isinstance(v, NT):
                return len(v.items) > 0
            return True
        if isinstance(v, Arr):
            return self.models.arr_truth(self, v)
        return Top('truth value')

    def iterate(self, v):
        """tuple/list of items, AbsList, or Top."""
        v = self.rdeep(v)
        if isinstance(v, tuple):
            return v
        if isinstance(v, NT):
            return v.items
        if isinstance(v, (AbsList, Top)):
            return v
        if isinstance(v, str):
            return tuple(v)
        if isinstance(v, Ref):
            o = self.deref(v)
            if isinstance(o, Phi):
                return self.fork(o.g, lambda: self.iterate(v), lambda: self.iterate(v))
            if isinstance(o, ListObj):
                return tuple(self.rdeep(x) for x in o.items)
            if isinstance(o, DictObj):
                return tuple(k for k, _ in o.items)
            if isinstance(o, InstObj):
                it = dict(o.attrs).get('#list')
                if it is not None:
                    return it
        if isinstance(v, ModelV) and v.kind in ('set', 'gen', 'range', 'iter'):
            if v.kind == 'iter':
                c = self.st.get(('iter', v.data))
                items, pos = self.resolve(c)
                self.st.set(('iter', v.data), (items, len(items)))
                return items[pos:]
            return v.data
        if isinstance(v, ModelV) and v.kind == 'enumlike':
            return v.data
        if isinstance(v, Arr):
            return self.models.arr_iter(self, v)
        if isinstance(v, Obj) and v.get('#iter') is not None:
            return v.get('#iter')
        return self.top(f'iteration over {type(v).__name__}')

    # ------------------------------------------------------------------ attributes / items
    def getattr(self, v, name, default=None):
        return self.lift(lambda x: self.getattr1(x, name), v, deep=False)

    def class_attr(self, cls, name):
        if self.st.has((cls.frame, name)):
            return self.resolve(self.st.get((cls.frame, name)))
        for b in cls.bases:
            if isinstance(b, ClassV):
                r = self.class_attr(b, name)
                if r is not None:
                    return r
        return None

    def bind(self, obj, cls, a):
        if isinstance(a, PropV):
            if a.kind == 'property':
                return self.call(BoundM(obj, a.fn), (), {})
            if a.kind == 'classmethod':
                return BoundM(cls, a.fn)
            return a.fn
        if isinstance(a, FuncV):
            return BoundM(obj, a)
        return a

    def getattr1(self, v, name):
        if isinstance(v, ExtV):
            if v.name.startswith('project:'):
                r = self.module_attr(v.name[8:], name)
                if r is None:
                    raise AbsRaise(ModelV('excinst', ('builtins.AttributeError', name)), self.where(), True)
                return r
            if v.name.startswith('lax.') and v.name.endswith('_p'):
                if name in ('name', '__name__'):
                    return v.name[4:-2]
                if name == 'multiple_results':
                    return False
            if self.st.has(('ea', v, name)):
                return self.rdeep(self.st.get(('ea', v, name)))
            return self.ext(v.name + '.' + name)
        if isinstance(v, NT):
            if name in v.cls.fields:
                return self.rdeep(v.items[v.cls.fields.index(name)])
            a = self.class_attr(v.cls, name)
            if a is not None:
                return self.bind(v, v.cls, a)
            if name in ('_replace', '_asdict', '_fields'):
                return v.cls.fields if name == '_fields' else MethV(v, name)
            if name == '__class__':
                return v.cls
            if name in ('count', 'index'):
                return MethV(v, name)
            raise AbsRaise(ModelV('excinst', ('builtins.AttributeError', f'{v.cls.name}.{name}')), self.where(), True)
        if isinstance(v, ClassV):
            a = self.class_attr(v, name)
            if a is not None:
                return self.bind(v, v, a) if isinstance(a, PropV) and a.kind != 'property' else a
            if name in ('__name__', '__qualname__'):
                return v.name
            if name == '_fields':
                return v.fields
            return MethV(v, name)
        if isinstance(v, Ref):
            o = self.deref(v)
            if isinstance(o, Phi):
                return self.fork(o.g, lambda: self.getattr1(v, name), lambda: self.getattr1(v, name))
            if isinstance(o, InstObj):
                for k, x in o.attrs:
                    if k == name:
                        return self.rdeep(x)
                a = self.class_attr(o.cls, name)
                if a is not None:
                    return self.bind(v, o.cls, a)
                if name == '__class__':
                    return o.cls
                return MethV(v, name)
            return MethV(v, name)
        if isinstance(v, FuncV):
            k = ('fa', v.id, name)
            if self.st.has(k):
                return self.resolve(self.st.get(k))
            if name in ('__name__', '__qualname__'):
                return getattr(v.node, 'name', '<lambda>')
            if name in ('__doc__', '__module__', '__wrapped__', '__annotations__'):
                return None
            raise AbsRaise(ModelV('excinst', ('builtins.AttributeError', name)), self.where(), True)
        if isinstance(v, BoundM):
            if name == '__self__':
                return v.self_
            if name == '__func__':
                return v.fn
            return self.getattr1(v.fn, name)
        if isinstance(v, Obj):
            r = v.get(name)
            if r is None:
                for k, x in v.attrs:
                    if k == name:
                        return None
                return self.models.obj_attr(self, v, name)
            return r
        return self.models.getattr(self, v, name)

    def setattr(self, obj, name, v):
        obj = self.rdeep(obj)
        if isinstance(obj, Phi):
            self.lift(lambda o: self.setattr(o, name, v), obj, deep=False)
            return
        if isinstance(obj, Ref):
            o = self.deref(obj)
            if isinstance(o, InstObj):
                attrs = dict(o.attrs)
                attrs[name] = v
                if o.own:
                    self.event('mutate', own=o.own, obj=o)
                self.st.set(obj.addr, InstObj(o.cls, attrs.items(), o.own))
                return
        if isinstance(obj, FuncV):
            self.st.set(('fa', obj.id, name), v)
            return
        if isinstance(obj, ModelV):
            if self.owning and obj.kind == 'userfn':
                self.event('mutate', own='userfn', obj=obj, how=f'attribute {name}')
            self.st.set(('fa', obj.id, name), v)
            return
        if isinstance(obj, ClassV):
            self.st.set((obj.frame, name), v)
            return
        if isinstance(obj, (ExtV, Obj)):
            self.event('ext_setattr', obj=obj, name=name, value=v)
            if self.owning and isinstance(obj, Obj) and obj.kind in OWNED_KINDS:
                self.event('mutate', own=obj.kind, obj=obj, how=f'attribute {name}')
            self.st.set(('ea', obj if isinstance(obj, ExtV) else obj.id, name), v)
            return
        if isinstance(obj, NT):
            raise AbsRaise(ModelV('excinst', ('builtins.AttributeError', name)), self.where(), True)
        if isinstance(obj, Top):
            return
        if isinstance(obj, Arr):
            self.touched(obj, f'attribute {name}')
        raise Unknown(f'attribute store on {type(obj).__name__}')

    def delattr(self, obj, name):
        obj = self.rdeep(obj)
        if isinstance(obj, Ref):
            o = self.deref(obj)
            if isinstance(o, InstObj):
                self.st.set(obj.addr, InstObj(o.cls, [(k, x) for k, x in o.attrs if k != name], o.own))

    def getitem(self, v, i):
        v = self.rdeep(v)
        if isinstance(v, Ref):
            o = self.st.get(v.addr)
            o = self.resolve(o)
            if isinstance(o, Phi):
                return self.fork(o.g, lambda: self.getitem(v, i), lambda: self.getitem(v, i))
        return self.lift(lambda x, y: self.models.getitem(self, x, y), v, i, deep=False) if not (
            isinstance(v, (Arr, tuple, NT)) or isinstance(i, tuple)) else self.lift2(v, i)

    def lift2(self, v, i):
        g = None
        if isinstance(v, Phi):
            g = v.g
        else:
            g = self.find_phi(i)
        if g is None:
            return self.models.getitem(self, v, i)
        return self.fork(g, lambda: self.getitem(self.restrict(v, g, True), self.rdeep(self.restrict(i, g, True))),
                         lambda: self.getitem(self.restrict(v, g, False), self.rdeep(self.restrict(i, g, False))))

    def setitem(self, obj, idx, v, node=None, fr=None):
        obj = self.rdeep(obj)
        if isinstance(obj, Phi) or isinstance(self.rdeep(idx), Phi):
            self.lift(lambda o, i: self.setitem(o, i, v, node, fr), obj, self.rdeep(idx), deep=False)
            return
        idx = self.rdeep(idx)
        if isinstance(obj, Ref):
            o = self.deref(obj)
            if isinstance(o, Phi):
                self.fork(o.g, lambda: self.setitem(obj, idx, v, node, fr), lambda: self.setitem(obj, idx, v, node, fr))
                return
            if isinstance(o, ListObj):
                if isinstance(idx, int):
                    n = len(o.items)
                    if not -n <= idx < n:
                        raise AbsRaise(ModelV('excinst', ('builtins.IndexError', idx)), self.where(), True)
                    items = list(o.items)
                    items[idx] = v
                    self.update_obj(obj, ListObj(items, o.own))
                    return
                if isinstance(idx, SliceV) and all(x is None or isinstance(x, int) for x in (idx.lo, idx.hi, idx.step)):
                    items = list(o.items)
                    new = self.iterate(v)
                    if not isinstance(new, (Top, AbsList)):
                        items[slice(idx.lo, idx.hi, idx.step)] = list(new)
                        self.update_obj(obj, ListObj(items, o.own))
                        return
                raise Unknown('list item store')
            if isinstance(o, DictObj):
                self.update_obj(obj, DictObj(dict_update(o.items, [(idx, v)]), o.own, o.factory))
                return
            if isinstance(o, InstObj):
                m = self.class_attr(o.cls, '__setitem__')
                if m is not None:
                    self.call(BoundM(obj, m), (idx, v), {})
                    return
        if isinstance(obj, Arr):
            if obj.stage == 'np' or obj.stage == 'py':
                self.touched(obj, 'item assignment')
                new = self.models.arr_setitem(self, obj, idx, v)
                if node is not None and isinstance(node, ast.Name):
                    self.assign(ast.Name(node.id, ast.Store()), new, fr)
                    return
                self.note('in-place array store through an expression')
                return
            if self.owning:
                self.touched(obj, 'item assignment')
            raise AbsRaise(ModelV('excinst', ('builtins.TypeError', 'jax arrays are immutable')), self.where(), True)
        if isinstance(obj, (Top, ExtV)):
            self.event('ext_setitem', obj=obj, idx=idx, value=v)
            return
        raise Unknown(f'item store on {type(obj).__name__}')

    def delitem(self, obj, idx):
        obj = self.rdeep(obj)
        idx = self.rdeep(idx)
        if isinstance(obj, Ref):
            o = self.deref(obj)
            if isinstance(o, ListObj) and isinstance(idx, int):
                items = list(o.items)
                del items[idx]
                self.update_obj(obj, ListObj(items, o.own))
                return
            if isinstance(o, ListObj) and isinstance(idx, SliceV) and all(x is None or isinstance(x, int) for x in (idx.lo, idx.hi, idx.step)):
                items = list(o.items)
                del items[slice(idx.lo, idx.hi, idx.step)]
                self.update_obj(obj, ListObj(items, o.own))
                return
            if isinstance(o, DictObj):
                if not any(k == idx for k, _ in o.items):
                    raise AbsRaise(ModelV('excinst', ('builtins.KeyError', repr(idx))), self.where(), True)
                self.update_obj(obj, DictObj([(k, x) for k, x in o.items if k != idx], o.own, o.factory))
                return
        if isinstance(obj, Top):
            return
        raise Unknown('item deletion')

    # ------------------------------------------------------------------ calls
    def call(self, f, args=(), kwargs=None):
        kwargs = kwargs or {}
        f = self.rdeep(f)
        if isinstance(f, Phi):
            return self.lift(lambda ff: self.call(ff, args, kwargs), f, deep=False)
        if isinstance(f, FuncV):
            return self.call_func(f, tuple(args), kwargs)
        if isinstance(f, BoundM):
            return self.call(f.fn, (f.self_,) + tuple(args), kwargs)
        if isinstance(f, ClassV):
            return self.instantiate(f, tuple(args), kwargs)
        if isinstance(f, Ref):
            o = self.deref(f)
            if isinstance(o, InstObj):
                m = self.class_attr(o.cls, '__call__')
                if m is not None:
                    m = self.bind(f, o.cls, m)
                    return self.call(m, args, kwargs)
        if isinstance(f, PropV):
            return self.call(f.fn, args, kwargs)
        self.tick(3)
        return self.models.call(self, f, tuple(args), kwargs)

    def instantiate(self, c, args, kwargs):
        h = self.hooks.get(c.qual)
        if h is not None:
            r = h(self, c, args, kwargs)
            if r is not NotImplemented:
                return r
        if c.kind == 'nt':
            vals = list(args)
            if len(vals) > len(c.fields):
                raise AbsRaise(ModelV('excinst', ('builtins.TypeError', 'too many fields')), self.where(), True)
            d = dict(c.defaults)
            for n in c.fields[len(vals):]:
                if n in kwargs:
                    vals.append(kwargs[n])
                elif n in d:
                    vals.append(d[n])
                else:
                    raise AbsRaise(ModelV('excinst', ('builtins.TypeError', f'missing field {n} of {c.name}')), self.where(), True)
            for k in kwargs:
                if k not in c.fields:
                    raise AbsRaise(ModelV('excinst', ('builtins.TypeError', f'unexpected field {k} of {c.name}')), self.where(), True)
            v = NT(c, vals)
            self.event('construct', cls=c.name, value=v)
            return v
        if c.kind == 'flag':
            return FlagV(c, args[0]) if isinstance(args[0], int) else self.top('flag')
        if c.kind == 'exc':
            return ModelV('excinst', (c.qual, args))
        r = self.alloc(InstObj(c, ()))
        init = self.class_attr(c, '__init__')
        if init is not None:
            self.call(BoundM(r, init), args, kwargs)
        elif c.kind == 'dataclass':
            attrs = {}
            d = dict(c.defaults)
            vals = list(args)
            for i, n in enumerate(c.fields):
                attrs[n] = vals[i] if i < len(vals) else kwargs.get(n, d.get(n, Top('missing')))
            self.st.set(r.addr, InstObj(c, attrs.items()))
        elif any(isinstance(b, ExtV) and b.name == 'builtins.list' for b in c.bases):
            self.st.set(r.addr, InstObj(c, [('#list', ())]))
        return r

    def bind_args(self, f, args, kwargs):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        pos = list(args)
        if len(pos) > len(names) and a.vararg is None:
            raise AbsRaise(ModelV('excinst', ('builtins.TypeError', f'{f.qual} takes {len(names)} arguments, {len(pos)} given')), self.where(), True)
        for n, v in zip(names, pos):
            vals[n] = v
        kw = dict(kwargs)
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n in vals:
                if n in kw and n not in [x.arg for x in a.posonlyargs]:
                    raise AbsRaise(ModelV('excinst', ('builtins.TypeError', f'{f.qual}: multiple values for {n}')), self.where(), True)
                continue
            if n in kw:
                vals[n] = kw.pop(n)
            elif i >= len(names) - nd:
                vals[n] = f.defaults[i - (len(names) - nd)]
            else:
                raise AbsRaise(ModelV('excinst', ('builtins.TypeError', f'{f.qual}: missing argument {n}')), self.where(), True)
        if a.vararg is not None:
            vals[a.vararg.arg] = tuple(pos[len(names):])
        kwd = dict(f.kwdefaults)
        for x in a.kwonlyargs:
            if x.arg in kw:
                vals[x.arg] = kw.pop(x.arg)
            elif x.arg in kwd:
                vals[x.arg] = kwd[x.arg]
            else:
                raise AbsRaise(ModelV('excinst', ('builtins.TypeError', f'{f.qual}: missing keyword {x.arg}')), self.where(), True)
        if a.kwarg is not None:
            vals[a.kwarg.arg] = self.new_dict(tuple(kw.items()))
        elif kw:
            raise AbsRaise(ModelV('excinst', ('builtins.TypeError', f'{f.qual}: unexpected keyword {sorted(kw)}')), self.where(), True)
        return vals

    def call_func(self, f, args, kwargs):
        h = self.hooks.get(f.qual)
        if h is not None:
            r = h(self, f, args, kwargs)
            if r is not NotImplemented:
                return r
        if sum(1 for x in self.callstack if x.node is f.node) > 8 or len(self.callstack) > 120:
            return self.top(f'recursion in {f.qual}')
        vals = self.bind_args(f, args, kwargs)
        self.reach.add(f.qual)
        fr = self.new_frame(f.frame, f.mod)
        for n, v in vals.items():
            self.st.set((fr, n), v)
        names = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
        if names:
            self.st.set((fr, '#self'), vals[names[0]])
        saved = self.cur_line
        self.callstack.append(f)
        S0 = self.st
        try:
            if isinstance(f.node, ast.Lambda):
                self.cur_line = (f.mod, f.node.lineno)
                try:
                    return self.eval(f.node.body, fr)
                except AbsRaise as e:
                    if e.where is None:
                        e.where = self.where()
                    raise
            if f.node.__dict__.get('_is_gen') is None:
                f.node._is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(f.node))
            ny, self.next_yield = self.next_yield, None
            gen = None
            if f.node._is_gen:
                if ny is not None and ny[0] is f.node:
                    self.yields[fr] = ny[1]
                else:           # generators are run to their end when they are made
                    gen = self.new_list(())

                    def collect(v):
                        x = self.deref(gen)
                        if not isinstance(x, ListObj):
                            raise Unknown('values of a generator depend on conditions')
                        self.st.set(gen.addr, ListObj(x.items + (v,)))
                        return None
                    self.yields[fr] = collect
            o = self.block(f.node.body, fr)
            v, st = self.finish(o, S0)
            self.commit(S0, st)
            self.st = S0
            if gen is not None:
                x = self.deref(gen)
                if not isinstance(x, ListObj):
                    return self.top(f'generator function {f.qual}')
                return ModelV('gen', x.items)
            return v
        except AbsRaise:
            # keep the effects of the raising run
            if self.st is not S0:
                try:
                    self.commit(S0, self.st)
                except AssertionError:
                    pass
            self.st = S0
            raise
        except (Unknown, Budget):
            self.st = S0
            raise
        finally:
            self.yields.pop(fr, None)
            self.callstack.pop()
            self.cur_line = saved

    def finish(self, o, S0):
        """(return value, final state) of a function body outcome."""
        def rec(o):
            if o.k == 'ret':
                return ('v', o.v, o.st)
            if o.k == 'fall':
                return ('v', None, o.st)
            if o.k == 'exc':
                return ('e', o.v, o.st)
            if o.k == 'phi':
                a, b = rec(o.a), rec(o.b)
                if a[0] == 'e' and b[0] == 'e':
                    return ('e', a[1], self.merge_states(o.base, o.g, a[2], b[2]))
                if a[0] == 'e':
                    self.pending(o.g, True, a[1])
                    return b
                if b[0] == 'e':
                    self.pending(o.g, False, b[1])
                    return a
                return ('v', self.mkphi(o.g, a[1], b[1]), self.merge_states(o.base, o.g, a[2], b[2]))
            raise Unknown('break outside loop')
        k, v, st = rec(o)
        if k == 'e':
            self.st = st
            raise v
        return v, st


def own_nodes(fn):
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def dict_update(items, new):
    items = list(items)
    for k, v in new:
        for i, (kk, _) in enumerate(items):
            if type(kk) is type(k) and kk == k:
                items[i] = (kk, v)
                break
        else:
            items.append((k, v))
    return tuple(items)


EXC_PARENTS = {
    'builtins.AssertionError': (), 'builtins.TypeError': (), 'builtins.ValueError': (),
    'builtins.AttributeError': (), 'builtins.KeyError': ('builtins.LookupError',),
    'builtins.IndexError': ('builtins.LookupError',), 'builtins.RuntimeError': (),
    'builtins.NameError': (), 'builtins.NotImplementedError': ('builtins.RuntimeError',),
    'builtins.Exception': (), 'builtins.ZeroDivisionError': ('builtins.ArithmeticError',),
}

BUILTINS = {'len', 'range', 'zip', 'enumerate', 'isinstance', 'issubclass', 'tuple', 'list', 'dict', 'set',
            'frozenset', 'int', 'float', 'bool', 'complex', 'str', 'max', 'min', 'sum', 'all', 'any', 'map',
            'filter', 'sorted', 'reversed', 'iter', 'next', 'getattr', 'setattr', 'hasattr', 'type', 'print',
            'abs', 'round', 'id', 'repr', 'slice', 'property', 'classmethod', 'staticmethod', 'super', 'object',
            'Exception', 'BaseException', 'AssertionError', 'TypeError', 'ValueError', 'AttributeError',
            'KeyError', 'IndexError', 'RuntimeError', 'NotImplementedError', 'StopIteration', 'NameError',
            'ZeroDivisionError', 'callable', 'divmod', 'pow', 'hash', 'locals', 'globals', 'vars', 'NotImplemented', 'Ellipsis',
            'delattr', 'open', 'input', 'format', 'bytes', 'Warning', 'UserWarning', '__name__', 'OverflowError',
            'ImportError', 'ModuleNotFoundError', 'KeyboardInterrupt', 'FloatingPointError', 'ArithmeticError', 'LookupError'}
