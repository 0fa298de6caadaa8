"""Process-wide state: the stores standing for logging, standard streams, warning filters, configuration, the tracing mode and the rule registry are compared
before and after a call, on returning and on raising exits."""
from .world import *
from .values import *
from .m_py import logger, INITIAL, WF
from .m_io import SYS, REAL, REALERR
from .interp import AbsRaise
from . import oracle as O, rules

LOGGER0 = {'level': 30, 'disabled': False, 'propagate': True}


class Watch:
    def __init__(self, W):
        self.W = W
        I = W.I
        logger(I)
        self.loggers = {n: self.logger(I, l) for n, l in I._loggers.items()}
        self.handlers = {h.id: h for n, l in I._loggers.items() for h in I.iterate(I.st.get(('ea', l.id, 'handlers')))}
        self.globals = self.collect()
        self.ct = I.compile_time
        self.keys = self.probes()
        self.reg = {k: self.lookup(k) for k in self.keys}

    # ---- registry, through the public functions
    def probes(self):
        W = self.W
        ks = ['logaddexp', 'sigmoid', 'softplus', 'silu', 'sign', 'slogdet', 'no such function', 'user', 'call']
        ks += [W.prim(p) for p in sorted({c.prim for c in rules.configs() if not c.prim.startswith(':')})]
        return ks + [ExtV('lax.opaque_op_p'), ExtV('lax.while_p'), ExtV('lax.cond_p'), ExtV('lax.cumsum_p'), ExtV('lax.custom_vjp_call_p')]

    def lookup(self, k):
        I = self.W.I
        r = I.rdeep(I.call(self.W.attr('folx.wrapped_functions', 'get_laplacian'), (k,), {}))
        return r

    # ---- stores
    def logger(self, I, l):
        h = I.st.get(('ea', l.id, 'handlers'))
        d = {f: I.rdeep(I.st.get(('ea', l.id, f))) for f in LOGGER0}
        d['filters'] = tuple(I.iterate(I.st.get(('ea', l.id, 'filters'))))
        d['handlers'] = tuple(I.iterate(h))
        return d

    def collect(self):
        I = self.W.I
        out = {}
        s = I.st
        while s is not None:
            for k, v in s.d.items():
                if isinstance(k, tuple) and len(k) == 3 and k[0] == 'ea' and isinstance(k[1], ExtV) and (k[1], k[2]) not in out:
                    out[k[1], k[2]] = v
            s = s.parent
        return out

    def initial(self, o, n):
        if (o, n) in self.globals:
            return self.globals[o, n]
        if n == '#state' or o.name == 'np.err':
            return INITIAL
        if ('ea', o, n) == WF:
            return None
        return self.W.I.ext(o.name + '.' + n)

    @staticmethod
    def plain(v):
        """The two names of the standard streams."""
        return {REAL: 'sys.stdout', REALERR: 'sys.stderr'}.get(v) if isinstance(v, Obj) else v.name if isinstance(v, ExtV) and v.name in ('sys.stdout', 'sys.stderr', 'sys.__stdout__', 'sys.__stderr__') else None

    def same(self, v, w):
        return v is w or type(v) is type(w) and v == w or self.plain(v) is not None and self.plain(v) == self.plain(w)

    def compare(self, out, when):
        """Adds the differences to the outcome."""
        I = self.W.I
        bad = []

        def differs(what, v, w):
            for cond, x in O.leaves(I, I.rdeep(v)) if isinstance(v, Phi) else [((), v)]:
                if isinstance(x, Top):
                    out.add('und', 'state', f'{what}: {x!r:.60}')
                elif not self.same(x, w):
                    bad.append((what, cond))
        for n, l in list(I._loggers.items()):
            want = self.loggers.get(n)
            h = I.rdeep(I.st.get(('ea', l.id, 'handlers')))
            name = 'the root logger' if n is None else f'logger {n}'
            for cond, x in O.leaves(I, h):
                hs = I.iterate(x)
                if isinstance(hs, Top):
                    out.add('und', 'state', f'handlers of {name}')
                elif want is not None and tuple(hs) != want['handlers'] or want is None and (len(hs) != 1 or not hs[0].get('#initial')):
                    bad.append((f'the handlers of {name}', cond))
            for f, v0 in LOGGER0.items():
                if I.st.has(('ea', l.id, f)):
                    differs(f'{f} of {name}', I.rdeep(I.st.get(('ea', l.id, f))), want[f] if want else v0)
            fs = I.iterate(I.st.get(('ea', l.id, 'filters')))
            if not isinstance(fs, Top) and tuple(fs) != (want['filters'] if want else ()):
                bad.append((f'the filters of {name}', ()))
        for i, h in self.handlers.items():
            for f in ('formatter', 'level'):
                if I.st.has(('ea', i, f)):
                    bad.append((f'the {f} of a handler that was there before', ()))
        for (o, n), v in self.collect().items():
            v = I.rdeep(v)
            w = self.initial(o, n)
            what = {'stdout': 'standard output', 'stderr': 'standard error'}.get(n, f'{o.name}.{n}') if o == SYS else 'the warning filters' if ('ea', o, n) == WF else (o.name if n == '#state' else f'{o.name}.{n}')
            if isinstance(v, Ref) and isinstance(w, Ref):
                if v != w and I.deref(v) != I.deref(w):
                    bad.append((what, ()))
                continue
            differs(what, v, w)
        for e in I.events:
            if e['kind'] == 'ext_setitem' and isinstance(e.get('obj'), ExtV) and e['obj'].name.startswith(('os.', 'sys.', 'jax.', 'warnings.')):
                bad.append((f'{e["obj"].name}', ()))
        ct = I.rdeep(I.st.get('#ct', 0))
        for cond, x in O.leaves(I, ct):
            if x != self.ct:
                bad.append(('the tracing mode (compile-time evaluation)', cond))
        for k in self.keys:
            now = self.lookup(k)
            was = self.reg[k]
            if isinstance(now, Top) or isinstance(was, Top):
                out.add('und', 'state', 'registry')
            elif not (now is was or (type(now) is type(was) and now == was)):
                bad.append((f'the registered rule of {k if isinstance(k, str) else k.name[4:]}', ()))
        out.n += 1
        seen = set()
        for what, cond in bad:
            if what not in seen:
                seen.add(what)
                out.add('und' if O.uncertain(cond) else 'bad', 'state', f'{what} is not what it was before the call ({when})', cond)
        if not bad:
            out.ok += 1


def watched(run, *a):
    """Runs an analysis unit and compares the state of every world it made."""
    ws = []
    World.on_start = lambda W: ws.append(Watch(W))
    try:
        o = run(*a)
    finally:
        World.on_start = None
    out = O.Outcome()
    for w in ws:
        w.compare(out, 'after the call')
        out.reach = getattr(out, 'reach', set()) | set(w.W.I.reach)
    und = o[0].und if isinstance(o, tuple) else o.und
    if und and not out.bad:
        i = und[0]
        out.n += 1
        out.add('und', 'unknown', i.msg)
    return out


def dirty(self):
    """Is the state visibly different at this moment? (registry excepted)"""
    I = self.W.I
    if I.compile_time != self.ct:
        return True
    for n, l in I._loggers.items():
        want = self.loggers.get(n)
        h = I.iterate(I.rdeep(I.st.get(('ea', l.id, 'handlers'))))
        if want and (isinstance(h, Top) or tuple(h) != want['handlers']):
            return True
        for f in LOGGER0:
            if want and I.st.has(('ea', l.id, f)) and I.rdeep(I.st.get(('ea', l.id, f))) != want[f]:
                return True
        fs = I.iterate(I.st.get(('ea', l.id, 'filters')))
        if want and (isinstance(fs, Top) or tuple(fs) != want['filters']):
            return True
    for (o, n), v in self.collect().items():
        w = self.initial(o, n)
        v = I.rdeep(v)
        if not self.same(v, w):
            return True
    return False


Watch.dirty = dirty
LIMIT = 60


def faulted(run, *a):
    """Runs a unit again and again, each time with another library call or call of the user's function failing while the state is changed."""
    sites = []

    def record(W):
        w = Watch(W)
        I = W.I
        seen = set()

        def see(f):
            k = (I.where(), getattr(f, 'name', None) or f.kind, len(I.callstack))
            if k in seen:
                return
            if w.dirty():
                seen.add(k)
                sites.append(k)
        I.fault = see
    World.on_start = record
    try:
        run(*a)
    finally:
        World.on_start = None
    out = O.Outcome()
    out.reach = set()
    if not sites:
        out.n = out.ok = 1
    for site in sites[:LIMIT]:
        ws = []

        def inject(W, site=site):
            w = Watch(W)
            ws.append(w)
            I = W.I
            hit = []

            def fail(f):
                if not hit and (I.where(), getattr(f, 'name', None) or f.kind, len(I.callstack)) == site:
                    hit.append(1)
                    raise AbsRaise(ModelV('excinst', ('builtins.RuntimeError', 'injected')), I.where(), True)
            I.fault = fail
        World.on_start = inject
        try:
            run(*a)
        except Exception as e:
            out.n += 1
            out.add('und', 'unknown', f'{type(e).__name__} {e}')
            continue
        finally:
            World.on_start = None
        for w in ws:
            w.W.I.fault = None
            w.compare(out, f'{site[1]} at {site[0]} fails')
            out.reach |= set(w.W.I.reach)
    return out


# ------------------------------------------------------------------ the registry
KEYS = [ExtV('lax.add_p'), ExtV('lax.custom_p'), 'logaddexp', 'user function', ExtV('lax.slice_p')]
OPS = [(o, i) for o in ('register 1', 'register 2', 'deregister') for i in range(len(KEYS))]


def kname(k):
    return k.name[4:] if isinstance(k, ExtV) else repr(k)


def registry_units():
    return {f'{o} {kname(KEYS[i])}, then ...': (o, i) for o, i in OPS}


def registry_run(project, uid):
    """Histories of up to three register/deregister calls, compared with a dictionary."""
    from .interp import Unknown, Budget
    from .rules import exc_name
    W = World(project)
    I = W.I
    out = O.Outcome()
    w = Watch(W)
    fns = {n: W.attr('folx.wrapped_functions', n) for n in ('register_function', 'deregister_function', 'is_registered', 'get_laplacian')}
    rules_ = {'register 1': Obj('userfn', {'#call': lambda I, a, k: Top('rule'), '__name__': 'one'}), 'register 2': Obj('userfn', {'#call': lambda I, a, k: Top('rule'), '__name__': 'two'})}
    start = {k: w.reg[k] for k in w.keys if w.reg[k] is not None}
    more = KEYS + ['add', 'custom', 'slice', 'add_p', 'custom_p', 'LOGADDEXP', 'logaddexp_p', 'user_function', 'function', '', None, ExtV('lax.logaddexp_p'), ExtV('lax.user_p'), ExtV('lax.custom_jvp_call_p')]
    ks = list(w.keys) + [k for k in more if k not in w.reg]
    for k in more:
        if k not in w.reg:
            v = w.lookup(k)
            if v is not None:
                start[k] = v

    def same(a, b):
        return a is b or type(a) is type(b) and a == b

    def step(op, want, hist):
        o, i = op
        k = KEYS[i]
        text = ', '.join(f'{p} {kname(KEYS[j])}' for p, j in hist + [op])
        want = dict(want)
        out.n += 1
        try:
            if o == 'deregister':
                r = I.call(fns['deregister_function'], (k,), {})
                if k not in want and not isinstance(r, Top):
                    out.add('bad' if not I.notes else 'und', 'registry', f'{text}: removing an entry that does not exist does not raise')
                want.pop(k, None)
            else:
                I.call(fns['register_function'], (k, rules_[o]), {})
                want[k] = rules_[o]
        except AbsRaise as e:
            if o != 'deregister' or k in want:
                out.add('bad' if not I.notes else 'und', 'registry', f'{text}: raises {exc_name(e)} at {e.where}')
                return None
        for q in ks if len(hist) < 2 else KEYS:
            v = I.rdeep(I.call(fns['get_laplacian'], (q,), {}))
            b = I.rdeep(I.call(fns['is_registered'], (q,), {}))
            x = want.get(q)
            if isinstance(v, (Top, Phi)) or isinstance(b, (Top, Phi)):
                out.add('und', 'registry', f'{text}: entry of {kname(q)}')
            elif not same(v, x):
                out.add('bad', 'registry', f'{text}: the rule of {kname(q)} is {v!r:.60} instead of {x!r:.60}')
                return None
            elif b is not (q in want):
                out.add('bad', 'registry', f'{text}: {kname(q)} is {"" if b else "not "}reported as registered')
                return None
        out.ok += 1
        return want

    def go(op, want, hist, base):
        I.st = base.child()
        n = step(op, want, hist)
        if n is None or len(hist) >= 2:
            return
        here = I.st
        for nxt in OPS:
            go(nxt, n, hist + [op], here)
    try:
        go(registry_units()[uid], start, [], I.st)
        # looking up, with or without wrapping, changes nothing
        w2 = Watch(W)
        for q in ks:
            try:
                I.call(fns['get_laplacian'], (q,), {'wrap_if_missing': True})
            except AbsRaise:
                pass
        w2.compare(out, 'after looking rules up')
    except (Unknown, Budget) as e:
        out.n += 1
        out.add('und', 'unknown', f'{type(e).__name__} {e} at {I.where()}')
    out.reach = set(I.reach)
    return out
