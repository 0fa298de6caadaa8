"""Standard streams, text, and the process-wide state reachable through sys / logging / warnings / os."""
from .values import *
from .interp import AbsRaise, Unknown
from . import tensor as T
from .models import EXT, METH, KIND, ext, meth, kind

SYS = ExtV('sys')
REAL = Obj('Stream', {'name': 'stdout'})
REALERR = Obj('Stream', {'name': 'stderr'})


def concrete(s):
    return isinstance(s, str) and not s.startswith('<')


def stream(I, name='stdout'):
    k = ('ea', SYS, name)
    if I.st.has(k):
        return I.rdeep(I.st.get(k))
    return REAL if name == 'stdout' else REALERR


def text_of(I, v):
    v = I.rdeep(v)
    if isinstance(v, bool) or v is None or isinstance(v, (int, str)):
        return str(v)
    if isinstance(v, Poly):
        v = norm(v)
        if isinstance(v, int):
            return str(v)
    if isinstance(v, (Top, Phi)):
        return None
    return '<text>'


def emit(I, target, text):
    target = I.rdeep(target)
    if isinstance(target, ExtV):
        target = REALERR if target.name.endswith('stderr') else REAL
    if isinstance(target, Obj) and target.kind == 'StringIO':
        k = ('ea', target.id, '#text')
        cur = I.st.get(k)
        if isinstance(cur, Phi) or isinstance(cur, Top):
            raise Unknown('captured text depends on conditions')
        I.st.set(k, cur + text if isinstance(cur, str) and text is not None else Top('captured text'))
        return
    if isinstance(target, (Top, Phi)):
        raise Unknown('output stream')
    I.event('io', name='print', text=text, target=target)


@ext('builtins.print', lift=False)
def b_print(I, a, k):
    a = [I.rdeep(x) for x in a]
    ts = [text_of(I, x) for x in a]
    sep, end = I.rdeep(k.get('sep', ' ')), I.rdeep(k.get('end', '\n'))
    sep, end = ' ' if sep is None else sep, '\n' if end is None else end
    f = I.rdeep(k.get('file'))
    if f is None:
        f = stream(I)
    emit(I, f, None if None in ts or not isinstance(sep, str) or not isinstance(end, str) else sep.join(ts) + end)
    return None


@ext('io.StringIO', '_io.StringIO', lift=False)
def x_stringio(I, a, k):
    o = Obj('StringIO', {'#stringio': True})
    I.st.set(('ea', o.id, '#text'), a[0] if a and isinstance(a[0], str) else '')
    I.st.set(('ea', o.id, '#pos'), 0)
    return o


@meth('StringIO', 'getvalue')
def sio_getvalue(I, o, a, k):
    return I.rdeep(I.st.get(('ea', o.id, '#text')))


@meth('StringIO', 'write')
def sio_write(I, o, a, k):
    emit(I, o, text_of(I, a[0]))
    return None


@meth('StringIO', 'seek')
def sio_seek(I, o, a, k):
    if not isinstance(a[0], int):
        raise Unknown('seek')
    I.st.set(('ea', o.id, '#pos'), a[0])
    return a[0]


@meth('StringIO', 'read')
def sio_read(I, o, a, k):
    t = sio_getvalue(I, o, (), {})
    p = I.rdeep(I.st.get(('ea', o.id, '#pos')))
    if not isinstance(t, str) or not isinstance(p, int) or a:
        raise Unknown('read')
    return t[p:]


@meth('StringIO', 'readlines')
def sio_readlines(I, o, a, k):
    return I.new_list(tuple(sio_read(I, o, (), {}).splitlines(True)))


for _n in ('flush', 'close'):
    meth('StringIO', _n)(lambda I, o, a, k: None)
    meth('Stream', _n)(lambda I, o, a, k: None)


@meth('Stream', 'write')
def str_write(I, o, a, k):
    emit(I, o, text_of(I, a[0]))


for _n in ('stdout', 'stderr'):
    EXT.pop(f'sys.{_n}', None)
    ext(f'sys.{_n}.write', lift=False)(lambda I, a, k, n=_n: emit(I, stream(I, n), text_of(I, a[0])))
    ext(f'sys.{_n}.flush', lift=False)(lambda I, a, k: None)


@ext('contextlib.redirect_stdout', lift=False)
def x_redirect(I, a, k):
    return ModelV('ctx', ('redirect', a[0], 'stdout'))


@ext('contextlib.redirect_stderr', lift=False)
def x_redirect_err(I, a, k):
    return ModelV('ctx', ('redirect', a[0], 'stderr'))


# ---------------------------------------------------------------- text
def _text_method(name):
    old = METH.get(('str', name))

    @meth('str', name)
    def h(I, o, a, k):
        a = [I.rdeep(x) for x in a]
        if concrete_text(o) and all(isinstance(x, (str, int)) or x is None for x in a) and not k:
            r = getattr(o, name)(*a)
            return I.new_list(tuple(r)) if isinstance(r, list) else r
        if old is not None:
            return old(I, o, a, k)
        raise Unknown(f'str.{name}')


def concrete_text(o):
    """Placeholders stand alone; text assembled by the print model contains them as ordinary characters."""
    return o not in ('<str>', '<formatted>', '<version>')


for _n in ('splitlines', 'strip', 'rstrip', 'lstrip', 'split', 'rsplit', 'upper', 'lower', 'partition', 'rpartition', 'isdigit', 'count', 'find', 'rfind'):
    _text_method(_n)


@meth('str', 'join')
def str_join(I, o, a, k):
    it = I.iterate(a[0])
    if not isinstance(it, (Top, AbsList)) and all(isinstance(x, str) for x in it) and concrete_text(o):
        return o.join(it)
    return '<str>'


# ---------------------------------------------------------------- subclasses of list
def _items(I, o):
    return dict(I.deref(o).attrs)


def _put(I, o, items):
    x = I.deref(o)
    at = dict(x.attrs)
    at['#list'] = tuple(items)
    I.st.set(o.addr, InstObj(x.cls, at.items(), x.own))


def _fixed(I, v):
    it = I.iterate(v)
    if isinstance(it, (Top, AbsList)):
        raise Unknown('sequence of unknown length')
    return tuple(it)


@meth('instlist', 'extend')
def il_extend(I, o, a, k):
    _put(I, o, _items(I, o)['#list'] + _fixed(I, a[0]))


@meth('instlist', 'append')
def il_append(I, o, a, k):
    _put(I, o, _items(I, o)['#list'] + (a[0],))


@meth('instlist', 'clear')
def il_clear(I, o, a, k):
    _put(I, o, ())


@meth('instlist', 'insert')
def il_insert(I, o, a, k):
    l = list(_items(I, o)['#list'])
    l.insert(a[0], a[1])
    _put(I, o, l)


@meth('instlist', 'pop')
def il_pop(I, o, a, k):
    l = list(_items(I, o)['#list'])
    if not l:
        T.raise_(I, 'IndexError', 'pop from empty list')
    r = l.pop(*a)
    _put(I, o, l)
    return r
