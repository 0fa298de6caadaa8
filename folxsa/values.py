"""Abstract values of the analysed Python program (all immutable, compared structurally)."""
from fractions import Fraction
from .poly import Poly, ONE, ZERO

_uid = [0]


def uid():
    _uid[0] += 1
    return _uid[0]


class V:
    """Base of structural values: subclasses define _key()."""
    __slots__ = ()

    def _key(self):
        return tuple(getattr(self, s) for s in self.__slots__)

    def __eq__(self, o):
        return type(self) is type(o) and self._key() == o._key()

    def __hash__(self):
        return hash((type(self).__name__, self._key()))

    def __repr__(self):
        return f'{type(self).__name__}{self._key()}'


class Top(V):
    __slots__ = ('why',)

    def __init__(self, why='unknown'):
        self.why = why

    def _key(self):
        return ()

    def __repr__(self):
        return f'Top({self.why})'


class Phi:
    """Value that is `a` where guard g holds and `b` where it does not."""
    __slots__ = ('g', 'a', 'b', '_h', 'n')

    def __init__(self, g, a, b):
        self.g, self.a, self.b = g, a, b
        self._h = None
        self.n = (a.n if isinstance(a, Phi) else 1) + (b.n if isinstance(b, Phi) else 1)

    def __eq__(self, o):
        return isinstance(o, Phi) and self.g == o.g and self.a == o.a and self.b == o.b

    def __hash__(self):
        if self._h is None:
            self._h = hash(('phi', self.g, self.a, self.b))
        return self._h

    def __repr__(self):
        return f'Phi({self.g}: {self.a!r} | {self.b!r})'


class Ref(V):
    """Reference to a mutable object in the store."""
    __slots__ = ('addr',)

    def __init__(self, addr):
        self.addr = addr


class ListObj(V):
    __slots__ = ('items', 'own')

    def __init__(self, items, own=None):
        self.items = tuple(items)
        self.own = own


class DictObj(V):
    __slots__ = ('items', 'own', 'factory')

    def __init__(self, items, own=None, factory=None):
        self.items = tuple(items)
        self.own = own
        self.factory = factory


class InstObj(V):
    __slots__ = ('cls', 'attrs', 'own')

    def __init__(self, cls, attrs, own=None):
        self.cls = cls
        self.attrs = tuple(attrs)
        self.own = own


class AbsList(V):
    """Sequence of unknown length whose elements are all described by `elem`."""
    __slots__ = ('elem', 'size', 'axis')

    def __init__(self, elem, size, axis=None):
        self.elem, self.size, self.axis = elem, size, axis


class SliceV(V):
    __slots__ = ('lo', 'hi', 'step')

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class NT(V):
    """Instance of a NamedTuple class."""
    __slots__ = ('cls', 'items')

    def __init__(self, cls, items):
        self.cls, self.items = cls, tuple(items)

    def _key(self):
        return (self.cls.qual, self.items)

    def __repr__(self):
        return f'{self.cls.name}({", ".join(f"{n}={v!r}" for n, v in zip(self.cls.fields, self.items))})'


class ExtV(V):
    """External (library) object, known by its canonical dotted name."""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f'<{self.name}>'


class FuncV(V):
    """Function of the analysed program, with its defining frame."""
    __slots__ = ('node', 'frame', 'mod', 'qual', 'defaults', 'kwdefaults', 'cls', 'id')

    def __init__(self, node, frame, mod, qual, defaults, kwdefaults, cls=None):
        self.node, self.frame, self.mod, self.qual = node, frame, mod, qual
        self.defaults, self.kwdefaults, self.cls = defaults, kwdefaults, cls
        self.id = uid()

    def _key(self):
        return (id(self.node), self.frame)

    def __repr__(self):
        return f'<fn {self.qual}>'


class BoundM(V):
    __slots__ = ('self_', 'fn')

    def __init__(self, self_, fn):
        self.self_, self.fn = self_, fn


class ModelV(V):
    """Callable implemented by the analysis (result of jax.vmap(f), partial application, ...)."""
    __slots__ = ('kind', 'data', 'id')

    def __init__(self, kind, data):
        self.kind, self.data = kind, data
        self.id = uid()

    def _key(self):
        return (self.kind, self.data)

    def __repr__(self):
        return f'<{self.kind} {self.data!r}>'


class MethV(V):
    """Method `name` of an abstract value (array, list, string ...)."""
    __slots__ = ('obj', 'name')

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class ClassV(V):
    __slots__ = ('name', 'qual', 'bases', 'frame', 'mod', 'kind', 'fields', 'defaults', 'node')

    def __init__(self, name, qual, bases, frame, mod, kind, fields, defaults, node):
        self.name, self.qual, self.bases, self.frame, self.mod = name, qual, bases, frame, mod
        self.kind, self.fields, self.defaults, self.node = kind, fields, defaults, node

    def _key(self):
        return (self.qual,)

    def __repr__(self):
        return f'<class {self.name}>'


class FlagV(V):
    __slots__ = ('cls', 'val')

    def __init__(self, cls, val):
        self.cls, self.val = cls, val

    def __repr__(self):
        return f'Flag({self.val:#x})'


class PropV(V):
    __slots__ = ('kind', 'fn')  # property / classmethod / staticmethod

    def __init__(self, kind, fn):
        self.kind, self.fn = kind, fn


class Dt(V):
    """dtype: kind f/c/i/b and a precision key ('p' symbolic, or an explicit name)."""
    __slots__ = ('kind', 'key')

    def __init__(self, kind, key):
        self.kind, self.key = kind, key

    def __repr__(self):
        return f'{self.kind}:{self.key}'


class TreeDef(V):
    """Structure of a pytree: node = ('leaf',) | ('none',) | (kind, meta, children)."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t


class AtV(V):
    __slots__ = ('arr', 'idx')

    def __init__(self, arr, idx):
        self.arr, self.idx = arr, idx


class Obj(V):
    """Record of named attributes (abstract jaxpr, equation, variable ...)."""
    __slots__ = ('kind', 'attrs', 'id')

    def __init__(self, kind, attrs, id=None):
        self.kind = kind
        self.attrs = tuple(sorted(attrs.items())) if isinstance(attrs, dict) else attrs
        self.id = id if id is not None else uid()

    def _key(self):
        return (self.kind, self.id)

    def get(self, n):
        for k, v in self.attrs:
            if k == n:
                return v
        return None

    def __repr__(self):
        return f'<{self.kind}#{self.id}>'


class Arr:
    """Abstract array.

    axes    tuple of axes, outermost first; an axis is a tuple of segments (label, size: Poly);
            None when the rank is not known
    blocks  {(segment index per axis): Poly (values) | tuple (index term) | None (unknown)}
    dt      Dt
    stage   'np' (NumPy constant), 'jx' (traced), 'ct' (jax array made under compile-time evaluation)
    own     frozenset of caller-owned roots this storage may alias
    cval    nested tuples with the actual (integer/boolean) contents, when constant
    """
    __slots__ = ('axes', 'blocks', 'dt', 'stage', 'own', 'cval', 'id', '_h')

    def __init__(self, axes, blocks, dt, stage, own=frozenset(), cval=None, id=None):
        self.axes = axes
        self.blocks = blocks
        self.dt = dt
        self.stage = stage
        self.own = own
        self.cval = cval
        self.id = id if id is not None else uid()
        self._h = None

    def key(self):
        return (self.axes, frozenset(self.blocks.items()), self.dt, self.stage, self.cval)

    def __eq__(self, o):
        return isinstance(o, Arr) and (self is o or (self.axes == o.axes and self.blocks == o.blocks
            and self.dt == o.dt and self.stage == o.stage and self.cval == o.cval and self.own == o.own))

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def but(self, **kw):
        d = dict(axes=self.axes, blocks=self.blocks, dt=self.dt, stage=self.stage, own=self.own, cval=self.cval)
        d.update(kw)
        return Arr(**d)

    @property
    def rank(self):
        return None if self.axes is None else len(self.axes)

    def shape(self):
        if self.axes is None:
            return None
        return tuple(norm(axis_size(a)) for a in self.axes)

    def __repr__(self):
        sh = '?' if self.axes is None else '[' + ','.join(
            '|'.join(f'{l if l is not None else ""}:{norm(s)}' for l, s in a) for a in self.axes) + ']'
        if self.cval is not None:
            return f'Arr{sh}={self.cval}'
        b = self.blocks
        if len(b) == 1:
            return f'Arr{sh}({list(b.values())[0]!r};{self.dt},{self.stage})'
        return f'Arr{sh}({b!r};{self.dt},{self.stage})'


def axis_size(axis):
    p = ZERO
    for _, s in axis:
        p = p + s
    return p


def norm(p):
    """Poly -> int/Fraction when constant."""
    if isinstance(p, Poly):
        c = p.as_const()
        if c is not None:
            return int(c) if c.denominator == 1 else c
        return p
    if isinstance(p, Fraction) and p.denominator == 1:
        return int(p)
    return p


def topoly(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        return Poly.const(int(x))
    if isinstance(x, (int, Fraction)):
        return Poly.const(x)
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            return Poly.atom(('v', repr(x), True))
        return Poly.const(Fraction(x))
    if isinstance(x, complex):
        from .poly import I
        return Poly.const(Fraction(x.real)) + Poly.atom(I).scale(Fraction(x.imag))
    return None


def is_num(x):
    return isinstance(x, (int, float, complex, Fraction, Poly)) and not isinstance(x, bool) or isinstance(x, bool)
