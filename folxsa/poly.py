"""Sparse polynomials over hashable atoms: the scalar domain of the analysis.

An atom is a tuple whose first entry is its kind:
  ('i',)                      imaginary unit (i*i = -1)
  ('eps', n)                  nilpotent perturbation (eps*eps = 0), used to differentiate
  ('v', name, real)           named quantity (operand, Jacobian, Laplacian, size ...)
  ('S', name, index, real)    sparsely stored Jacobian data of `name`, aligned with index term
  ('app', f, args, deriv, real, par)   opaque function application / derivative
  ('conj', atom)              complex conjugate of a non-real atom
  ('n', name)                 integer size (>= 2 unless stated otherwise)
  ('bad', reason)             poison: the value is definitely not what it should be
Exponents are Fractions.
"""
from fractions import Fraction

I = ('i',)


def is_real_atom(a):
    k = a[0]
    if k == 'v':
        return a[2]
    if k == 'S':
        return a[3]
    if k == 'app':
        return a[4]
    if k in ('i', 'conj'):
        return False
    return True


class Poly:
    __slots__ = ('t', '_h')

    def __init__(self, t=None):
        self.t = t if t is not None else {}
        self._h = None

    # -- constructors
    @staticmethod
    def const(c):
        c = Fraction(c)
        return Poly({(): c}) if c else Poly()

    @staticmethod
    def atom(a, e=1):
        return Poly({((a, Fraction(e)),): Fraction(1)})

    # -- basics
    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __bool__(self):
        return bool(self.t)

    def is_zero(self):
        return not self.t

    def as_const(self):
        """Fraction if this is a constant, else None."""
        if not self.t:
            return Fraction(0)
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def atoms(self):
        out = set()
        for m in self.t:
            for a, _ in m:
                out.add(a)
        return out

    def all_atoms(self):
        """Atoms including those nested in applications and conjugates."""
        out = set()
        todo = list(self.atoms())
        while todo:
            a = todo.pop()
            if a in out:
                continue
            out.add(a)
            if a[0] == 'conj':
                todo.append(a[1])
            elif a[0] == 'app':
                for p in a[2]:
                    if isinstance(p, Poly):
                        todo.extend(p.atoms())
        return out

    def is_real(self):
        for m in self.t:
            for a, e in m:
                if not is_real_atom(a):
                    return (self - self.conj()).is_zero()
        return True

    # -- arithmetic
    def __add__(self, o):
        if not o.t:
            return self
        if not self.t:
            return o
        t = dict(self.t)
        for m, c in o.t.items():
            s = t.get(m, 0) + c
            if s:
                t[m] = s
            else:
                t.pop(m, None)
        return Poly(t)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, c):
        c = Fraction(c)
        return Poly({m: c * v for m, v in self.t.items()}) if c else Poly()

    def __mul__(self, o):
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                r = mono_mul(m1, m2)
                if r is None:
                    continue
                s, m = r
                v = t.get(m, 0) + c1 * c2 * s
                if v:
                    t[m] = v
                else:
                    t.pop(m, None)
        return Poly(t)

    def conj(self):
        t = Poly()
        for m, c in self.t.items():
            r = Poly.const(c)
            for a, e in m:
                r = r * conj_atom(a, e)
            t = t + r
        return t

    def re(self):
        return (self + self.conj()).scale(Fraction(1, 2))

    def im(self):
        return ((self - self.conj()) * Poly.atom(I)).scale(Fraction(-1, 2))

    def pow(self, e):
        """Rational power; None when it cannot be represented."""
        e = Fraction(e)
        if e.denominator == 1 and e >= 0:
            r = Poly.const(1)
            for _ in range(int(e)):
                r = r * self
            return r
        base, nil = self.split_eps()
        if len(base.t) != 1:
            return None
        (m, c), = base.t.items()
        cc = frac_pow(c, e)
        if cc is None:
            return None

        def bpow(k):
            # base ** k for the single-monomial base
            if e.denominator != 1 and any(not isinstance(x, Fraction) for _, x in m):
                return None
            r = Poly.const(frac_pow(c, e) * Fraction(c) ** (int(k - e)))
            for a, x in m:
                r = r * atom_pow(a, x * k)
            return r
        if nil.is_zero():
            return bpow(e)
        out = Poly()
        coef = Fraction(1)
        term = Poly.const(1)
        k = 0
        while True:
            out = out + bpow(e - k) * term.scale(coef)
            k += 1
            term = term * nil
            if term.is_zero():
                return out
            coef = coef * (e - (k - 1)) / k

    # -- perturbations
    def split_eps(self):
        a, b = {}, {}
        for m, c in self.t.items():
            if any(x[0] == 'eps' for x, _ in m):
                b[m] = c
            else:
                a[m] = c
        return Poly(a), Poly(b)

    def has_eps(self):
        return any(x[0] == 'eps' for m in self.t for x, _ in m)

    def coef_eps(self, eps):
        """(part without eps, coefficient of eps)."""
        a, b = {}, {}
        for m, c in self.t.items():
            if any(x == eps for x, _ in m):
                b[tuple(p for p in m if p[0] != eps)] = c
            else:
                a[m] = c
        return Poly(a), Poly(b)

    def coef_atom(self, atom):
        """coefficient polynomial of atom**1, and the rest (other powers kept in rest)."""
        a, b = {}, {}
        for m, c in self.t.items():
            hit = [e for x, e in m if x == atom]
            if hit and hit[0] == 1:
                b[tuple(p for p in m if p[0] != atom)] = c
            else:
                a[m] = c
        return Poly(b), Poly(a)

    def subst(self, f):
        """Replace atoms: f(atom) -> Poly or None (keep)."""
        out = Poly()
        for m, c in self.t.items():
            r = Poly.const(c)
            for a, e in m:
                p = subst_atom(a, f)
                if p is None:
                    r = r * atom_pow(a, e)
                else:
                    q = p.pow(e)
                    if q is None:
                        q = Poly.atom(('bad', 'unrepresentable power'))
                    r = r * q
            out = out + r
        return out

    def bad(self):
        for a in self.all_atoms():
            if a[0] == 'bad':
                return a[1]
        return None

    def __repr__(self):
        return show(self)


ZERO = Poly()
ONE = Poly.const(1)


def subst_atom(a, f):
    p = f(a)
    if p is not None:
        return p
    if a[0] == 'conj':
        q = subst_atom(a[1], f)
        return q.conj() if q is not None else None
    if a[0] == 'app':
        new = tuple(x.subst(f) if isinstance(x, Poly) else x for x in a[2])
        if new != a[2]:
            real = a[4] and all(x.is_real() for x in new if isinstance(x, Poly))
            return Poly.atom(('app', a[1], new, a[3], real) + a[5:])
    return None


def frac_pow(c, e):
    c = Fraction(c)
    if e.denominator == 1:
        if c == 0:
            return None
        return c ** int(e)
    if c == 1:
        return Fraction(1)
    return None


def atom_pow(a, e):
    e = Fraction(e)
    if e == 0:
        return ONE
    if a[0] == 'eps':
        return Poly.atom(a) if e == 1 else ZERO
    if a[0] == 'i':
        n = int(e) % 4
        return [ONE, Poly.atom(I), Poly.const(-1), -Poly.atom(I)][n]
    if a[0] == 'app' and a[1] == 'abs' and not any(a[3]):
        # |x|**2 -> x * conj(x)
        n = int(e // 2)
        r = e - 2 * n
        x = a[2][0]
        sq = x * x.conj()
        q = sq.pow(n)
        if q is not None and n != 0:
            return q * (Poly.atom(a, r) if r else ONE)
        return Poly.atom(a, e)
    return Poly.atom(a, e)


def mono_mul(m1, m2):
    if not m1:
        return (1, m2)
    if not m2:
        return (1, m1)
    d = dict(m1)
    special = False
    for a, e in m2:
        if a in d:
            if a[0] == 'eps':
                return None
            s = d[a] + e
            if s:
                d[a] = s
            else:
                del d[a]
            if a[0] == 'i' or (a[0] == 'app' and a[1] == 'abs'):
                special = True
        else:
            d[a] = e
    sign = 1
    if special:
        if I in d:
            n = int(d[I]) % 4
            if n == 0:
                del d[I]
            elif n == 1:
                d[I] = Fraction(1)
            elif n == 2:
                del d[I]
                sign = -1
            else:
                d[I] = Fraction(1)
                sign = -1
        for a in list(d):
            if a[0] == 'app' and a[1] == 'abs' and not any(a[3]) and not (0 < d[a] < 2):
                e = d.pop(a)
                p = atom_pow(a, e)
                if len(p.t) == 1:
                    (m, c), = p.t.items()
                    r = mono_mul(tuple(sorted(d.items(), key=akey)), m)
                    if r is None:
                        return None
                    return (sign * c * r[0], r[1])
                d[a] = e
    return (sign, tuple(sorted(d.items(), key=akey)))


_keys = {}


def akey(item):
    a = item[0]
    k = _keys.get(a)
    if k is None:
        k = _keys[a] = (a[0], repr(a) if a[0] != 'app' else (a[1] + repr(a[3]) + repr(a[2])))
    return (str(k[0]), str(k[1]))


def conj_atom(a, e):
    if a[0] == 'i':
        return atom_pow(a, e).scale(-1 if int(e) % 2 else 1)
    if is_real_atom(a):
        return atom_pow(a, e)
    if a[0] == 'conj':
        return atom_pow(a[1], e)
    return atom_pow(('conj', a), e)


def show_atom(a):
    k = a[0]
    if k == 'i':
        return 'i'
    if k == 'v' or k == 'n':
        return str(a[1])
    if k == 'S':
        return f'{a[1]}@{show_ix(a[2])}'
    if k == 'conj':
        return f'conj({show_atom(a[1])})'
    if k == 'app':
        d = '' if not any(a[3]) else "^" + ''.join(str(x) for x in a[3])
        return f'{a[1]}{d}({",".join(show(x) if isinstance(x, Poly) else str(x) for x in a[2])})'
    if k == 'bad':
        return f'<WRONG: {a[1]}>'
    return str(a)


def show_ix(t):
    if isinstance(t, tuple):
        return '(' + ' '.join(show_ix(x) for x in t) + ')'
    if isinstance(t, frozenset):
        return '{' + ','.join(sorted(show_ix(x) for x in t)) + '}'
    return str(t)


def show(p):
    if not p.t:
        return '0'
    out = []
    for m, c in sorted(p.t.items(), key=lambda x: str([akey(y) for y in x[0]])):
        fs = []
        if c != 1 or not m:
            fs.append(str(c))
        for a, e in m:
            s = show_atom(a)
            if e != 1:
                s += f'^{e}'
            fs.append(s)
        out.append('*'.join(fs))
    return ' + '.join(out)
