"""Operations on abstract arrays: axis typing (labels, symbolic extents, segments) plus contents.

Every axis is a sequence of segments (label, size).  Labels say what an axis ranges over:
  ('K', m)      stored Jacobian entries of a sparse Jacobian with index pattern m
  ('J',)        all inputs (dense Jacobian)
  ('O', t)      an index set t (union / intersection of patterns)
  ('A', name)   an axis of an operand
  ('*', ((l, n), ...))   row-major product of axes
  ('&', {l, ...})        slot-wise overlay of several K axes
  ('rng', l, lo, hi)     the part lo..hi of axis l
  ('div', l, i, k)       i-th of k axes that axis l was split into
  None          the content does not vary along the axis
"""
import itertools
from fractions import Fraction

from .poly import Poly, ZERO, ONE, I as IMAG
from .values import *
from .interp import AbsRaise, Unknown

ONESEG = ((None, ONE),)
PAD = ('pad',)          # rows appended to stored Jacobian entries: zero data / index -1


def bad(reason):
    return Poly.atom(('bad', reason))


def raise_(I, kind, msg):
    raise AbsRaise(ModelV('excinst', ('builtins.' + kind, msg)), I.where(), True)


# ------------------------------------------------------------------ labels
def klike(l):
    if l is None:
        return False
    if l[0] in ('K', 'J', 'O', '&'):
        return True
    if l[0] == '*':
        return any(klike(x) for x, _ in l[1])
    if l[0] == 'rng':
        return klike(l[1])
    return False


def comps(l):
    """Elementary labels of a label."""
    if l is None:
        return frozenset()
    if l[0] == '*':
        return frozenset().union(*[comps(x) for x, _ in l[1]])
    if l[0] == '&':
        return frozenset().union(*[comps(x) for x in l[1]])
    if l[0] in ('rng', 'div', 'at'):
        return comps(l[1]) | {l}
    return frozenset([l])


def mk_star(fs):
    """Label of the row-major product of [(label, size)] factors (sizes != 1)."""
    fs = [f for f in fs if f[1] != ONE]
    if not fs:
        return None
    fs = collapse_div(fs)
    if len(fs) == 1:
        return fs[0][0]
    if all(l is None for l, _ in fs):
        return None
    return ('*', tuple(fs))


def collapse_div(fs):
    out = []
    i = 0
    while i < len(fs):
        l, n = fs[i]
        if l is not None and l[0] == 'div' and l[2] == 0:
            k = l[3]
            if i + k <= len(fs) and all(fs[i + j][0] is not None and fs[i + j][0][:2] == l[:2] and fs[i + j][0][2] == j
                                        for j in range(k)):
                s = ONE
                for j in range(k):
                    s = s * fs[i + j][1]
                out.append((l[1], s))
                i += k
                continue
        out.append((l, n))
        i += 1
    return out


def factors(seg):
    l, n = seg
    if n == ONE:
        return []
    if l is not None and l[0] == '*':
        return list(l[1])
    return [(l, n)]


def unify_label(I, a, b):
    """(label, ok)"""
    if a == b:
        return a, True
    if a is None:
        return b, True
    if b is None:
        return a, True
    if a == PAD:
        return b, True
    if b == PAD:
        return a, True
    if klike(a) and klike(b) and a[0] != '*' and b[0] != '*':
        s = set()
        for x in (a, b):
            s |= set(x[1]) if x[0] == '&' else {x}
        return ('&', frozenset(s)), True
    if a[0] == 'nz' and b[0] == 'nz' and a[1] == b[1] and len(a[2]) == len(b[2]):
        out, ok = [], True
        for (x, n), (y, m) in zip(a[2], b[2]):
            l, o = unify_label(I, x, y)
            ok = ok and o and n == m
            out.append((l, n))
        return ('nz', a[1], tuple(out)), ok
    if a[0] == '*' and b[0] == '*':
        out, ok = [], True
        x, y = list(a[1]), list(b[1])
        while x and y:
            (la, na), (lb, nb) = x.pop(0), y.pop(0)
            if na == nb:
                l, o = unify_label(I, la, lb)
                ok = ok and o
                out.append((l, na))
                continue
            # an unlabelled factor stands for the product of several factors of the other label
            for (l1, n1), (l2, n2), rest, lab2 in (((la, na), (lb, nb), y, 0), ((lb, nb), (la, na), x, 1)):
                if l1 is None:
                    acc = [(l2, n2)]
                    p = n2
                    while p != n1 and rest:
                        acc.append(rest.pop(0))
                        p = p * acc[-1][1]
                    if p == n1:
                        out += acc
                        break
            else:
                return a, False
        return ('*', tuple(out)), ok and not x and not y
    return a, False


def refine(I, a, b):
    """Common segmentation of two axes of equal extent that keeps every labelled segment whole, or None.
    -> [(label, size, index in a, index in b)]"""
    out = []
    i = j = 0
    (la, ra), (lb, rb) = a[0], b[0]
    while True:
        if ra == rb:
            l, o = unify_label(I, la, lb)
            if not o:
                return None
            out.append((l, ra, i, j))
            i, j = i + 1, j + 1
            if i == len(a) or j == len(b):
                return out if i == len(a) and j == len(b) else None
            (la, ra), (lb, rb) = a[i], b[j]
        elif la in (None, PAD) and I.models.le(I, rb, ra):
            out.append((lb if lb is not None else la, rb, i, j))
            ra = ra - rb
            j += 1
            if j == len(b):
                return None
            lb, rb = b[j]
        elif lb in (None, PAD) and I.models.le(I, ra, rb):
            out.append((la if la is not None else lb, ra, i, j))
            rb = rb - ra
            i += 1
            if i == len(a):
                return None
            la, ra = a[i]
        else:
            return None


def absorb_axis(ax):
    """Merge padding into the Jacobian entries it follows. -> (axis, index of the kept segments)"""
    segs, pick = [], []
    for i, (l, s) in enumerate(ax):
        if l == PAD and segs and klike(segs[-1][0]):
            segs[-1] = (segs[-1][0], segs[-1][1] + s)
            continue
        segs.append((l, s))
        pick.append(i)
    return tuple(segs), pick


def absorb(a):
    if a.axes is None or not any(l == PAD for ax in a.axes for l, _ in ax):
        return a
    axes, picks = zip(*[absorb_axis(ax) for ax in a.axes])
    if axes == a.axes:
        return a
    blocks = {k: a.blocks[tuple(p[i] for p, i in zip(picks, k))] for k in keys(axes)}
    return a.but(axes=tuple(axes), blocks=blocks, cval=None)


def unify_axes(I, axs):
    """axs: list of axes (or None for a missing axis). -> (axis, [seg map per array], ok)"""
    live = [a for a in axs if a is not None and not (len(a) == 1 and a[0][1] == ONE)]
    if not live:
        return ONESEG, [(0,) if a is not None else None for a in axs], True
    tot = axis_size(live[0])
    for a in live:
        if axis_size(a) != tot:
            raise_(I, 'TypeError', f'incompatible shapes: {norm(axis_size(a))} vs {norm(tot)}')
    for absb in (False, True):
        if absb and not any(l == PAD for a in live for l, _ in a):
            break
        cur, maps, ok = None, [], True
        for a in axs:
            if a is None or (len(a) == 1 and a[0][1] == ONE and tot != ONE):
                maps.append(None if a is None else 0)
                continue
            b, pick = absorb_axis(a) if absb else (a, list(range(len(a))))
            if cur is None:
                cur = list(b)
                maps.append(list(pick))
                continue
            r = refine(I, tuple(cur), b)
            if r is None:
                ok = False
                break
            maps = [[m[x[2]] for x in r] if isinstance(m, list) else m for m in maps]
            maps.append([pick[x[3]] for x in r])
            cur = [(x[0], x[1]) for x in r]
        if ok:
            n = len(cur)
            return tuple(cur), [None if m is None else (0,) * n if m == 0 else tuple(m) for m in maps], True
    best = max(live, key=len)
    maps = []
    for a in axs:
        if a is None:
            maps.append(None)
        elif len(a) == 1:
            maps.append(tuple(0 for _ in best))
        else:
            maps.append(tuple(min(i, len(a) - 1) for i in range(len(best))))
    return tuple(best), maps, False


def size_of(arr):
    p = ONE
    for a in arr.axes:
        p = p * axis_size(a)
    return p


def keys(axes):
    return itertools.product(*[range(len(a)) for a in axes])


def lift_scalar(x, dt=None, stage='np'):
    p = topoly(x)
    if dt is None:
        if isinstance(x, bool):
            dt = Dt('b', 'weak')
        elif isinstance(x, complex):
            dt = Dt('c', 'weak')
        elif isinstance(x, float):
            dt = Dt('f', 'weak')
        elif isinstance(x, int) or isinstance(x, (Fraction, Poly)):
            dt = Dt('i', 'weak')
        else:
            dt = Dt('i', 'weak')
    return Arr((), {(): p}, dt, 'py')


def pointwise(I, arrs, fn, dt, stage, own=frozenset()):
    """Broadcasting element-wise combination; fn maps contents to a content."""
    r = max(len(a.axes) for a in arrs)
    axes, maps, allok = [], [], True
    for d in range(r):
        axs = []
        for a in arrs:
            k = d - (r - len(a.axes))
            axs.append(a.axes[k] if k >= 0 else None)
        ax, m, ok = unify_axes(I, axs)
        axes.append(ax)
        maps.append(m)
        allok = allok and ok
    blocks = {}
    vague = not allok and any(a.cval is None and any(c is None for c in a.blocks.values()) for a in arrs)
    for k in keys(axes):
        cs = []
        for i, a in enumerate(arrs):
            off = r - len(a.axes)
            cs.append(a.blocks[tuple(maps[d][i][k[d]] for d in range(off, r))])
        if vague or any(c is None for c in cs):
            blocks[k] = None
        elif not allok and not all(isinstance(c, Poly) and c.as_const() is not None for c in cs):
            blocks[k] = bad('values of different axes are combined (misaligned axes)')
        else:
            blocks[k] = fn(*cs)
    return Arr(tuple(axes), blocks, dt, stage, own)


# ------------------------------------------------------------------ reshaping
def transpose(I, a, perm):
    perm = list(perm)
    if sorted(x % max(1, a.rank) if isinstance(x, int) else -1 for x in perm) != list(range(a.rank)):
        raise_(I, 'ValueError', f'transpose permutation {perm} for rank {a.rank}')
    perm = [p % a.rank for p in perm] if a.rank else []
    if perm == list(range(a.rank)):
        return a
    axes = tuple(a.axes[p] for p in perm)
    blocks = {tuple(k[p] for p in perm): c for k, c in a.blocks.items()}
    return a.but(axes=axes, blocks=blocks, cval=None)


def moveaxis(I, a, src, dst):
    src = [s % a.rank for s in (src if isinstance(src, tuple) else (src,))]
    dst = [s % a.rank for s in (dst if isinstance(dst, tuple) else (dst,))]
    order = [i for i in range(a.rank) if i not in src]
    for d, s in sorted(zip(dst, src)):
        order.insert(d, s)
    return transpose(I, a, order)


def expand(I, a, pos):
    n = a.rank + 1
    if pos < 0:
        pos += n
    axes = a.axes[:pos] + (ONESEG,) + a.axes[pos:]
    blocks = {k[:pos] + (0,) + k[pos:]: c for k, c in a.blocks.items()}
    return a.but(axes=axes, blocks=blocks, cval=None)


def squeeze(I, a, dims):
    dims = sorted({d % a.rank for d in dims}, reverse=True)
    for d in dims:
        if axis_size(a.axes[d]) != ONE:
            raise_(I, 'ValueError', f'cannot squeeze axis of size {norm(axis_size(a.axes[d]))}')
        a = a.but(axes=a.axes[:d] + a.axes[d + 1:], blocks={k[:d] + k[d + 1:]: c for k, c in a.blocks.items()}, cval=None)
    return a


def explicit(a):
    """Is every entry of the array a block of its own (all axes made of rows)?"""
    return a.axes is not None and all(n == ONE for ax in a.axes for _, n in ax)


def entries(a):
    """Contents of an explicit array in row-major order."""
    return [a.blocks[k] for k in keys(a.axes)]


def from_entries(cs, shape, dt, stage):
    axes = tuple(((None, ONE),) * n for n in shape)
    return Arr(axes, dict(zip(keys(axes), cs)), dt, stage)


def reshape(I, a, shape):
    shape = [topoly(s) for s in shape]
    if explicit(a) and any(len(ax) > 1 for ax in a.axes) and all(s.as_const() is not None for s in shape):
        n = 1
        for ax in a.axes:
            n *= len(ax)
        sh = [int(s.as_const()) for s in shape]
        if sh.count(-1) <= 1:
            p = 1
            for s in sh:
                p *= s if s != -1 else 1
            if -1 in sh and p and n % p == 0:
                sh[sh.index(-1)] = n // p
                p = n
            if p != n or -1 in sh:
                raise_(I, 'TypeError', f'cannot reshape array of size {n} into {sh}')
            return from_entries(entries(a), sh, a.dt, a.stage)
    a = absorb(a)
    # factor list of the source: (segs, axis index)
    fac = []
    for i, ax in enumerate(a.axes):
        if len(ax) == 1:
            for f in factors(ax[0]):
                fac.append(((f,), None))
        else:
            fac.append((ax, i))
    minus = [i for i, s in enumerate(shape) if s == Poly.const(-1)]
    if len(minus) > 1:
        raise_(I, 'ValueError', 'more than one -1 in reshape')

    def fsize(f):
        return axis_size(f[0])

    def take(fac, sizes, from_right=False):
        """Consume factors for the given sizes; -> ([axis factor lists], rest)"""
        fac = list(fac)
        out = []
        seq = list(sizes)
        if from_right:
            fac.reverse()
            seq.reverse()
        j = 0
        while j < len(seq):
            t = seq[j]
            j += 1
            if t == ONE:
                out.append([])
                continue
            got, p = [], ONE
            while p != t:
                if not fac:
                    return None
                f = fac.pop(0)
                got.append(f)
                p = p * fsize(f)
                if p != t and len(got) == 1 and f[1] is None:
                    # split one factor into several target axes?
                    q, m = t, 1
                    k = j
                    done = False
                    while k < len(seq):
                        q = q * seq[k]
                        k += 1
                        m += 1
                        if q == fsize(f):
                            done = True
                            break
                    if done:
                        lab = f[0][0][0]
                        parts = list(range(m))
                        if from_right:
                            parts.reverse()
                        for x, idx in enumerate(parts):
                            tt = seq[j - 1 + x]
                            nl = None if lab is None else ('div', lab, idx, m)
                            out.append([(((nl, tt),), None)] if tt != ONE else [])
                        j = k
                        got = None
                        break
            if got is not None:
                if from_right:
                    got.reverse()
                out.append(got)
        if from_right:
            fac.reverse()
            out.reverse()
        return out, fac

    if minus:
        m = minus[0]
        L = take(fac, shape[:m])
        if L is None:
            return reshape_fail(I, a, shape)
        left, rest = L
        R = take(rest, shape[m + 1:], True)
        if R is None:
            return reshape_fail(I, a, shape)
        right, mid = R
        groups = left + [mid] + right
    else:
        L = take(fac, shape)
        if L is None or L[1]:
            return reshape_fail(I, a, shape)
        groups = L[0]
    axes, src = [], []
    for g in groups:
        multi = [f for f in g if f[1] is not None]
        if not multi:
            fs = [f[0][0] for f in g]
            n = ONE
            for _, s in fs:
                n = n * s
            axes.append(((mk_star(fs), n),) if fs else ONESEG)
            src.append(None)
        elif len(g) == 1:
            axes.append(g[0][0])
            src.append(g[0][1])
        elif len(multi) == 1 and g[0] is multi[0]:
            rest = [f[0][0] for f in g[1:]]
            rn = ONE
            for _, s in rest:
                rn = rn * s
            axes.append(tuple((mk_star([(l, n)] + rest) if n != ONE else mk_star(rest), n * rn) for l, n in g[0][0]))
            src.append(g[0][1])
        elif len(multi) == 1 and all(n == ONE for _, n in multi[0][0]) is False and g[-1] is multi[0]:
            raise Unknown('reshape merging a segmented inner axis')
        else:
            raise Unknown('reshape of segmented axes')
    used = {s for s in src if s is not None}
    blocks = {}
    for k in keys(axes):
        old = [0] * a.rank
        for pos, s in zip(k, src):
            if s is not None:
                old[s] = pos
        blocks[k] = a.blocks[tuple(old)]
    return a.but(axes=tuple(axes), blocks=blocks, cval=None)


def reshape_fail(I, a, shape):
    tot = size_of(a)
    p = ONE
    neg = False
    for s in shape:
        if s == Poly.const(-1):
            neg = True
        else:
            p = p * s
    if not neg and p != tot:
        raise_(I, 'TypeError', f'cannot reshape array of size {norm(tot)} into {[norm(s) for s in shape]}')
    # same total extent but the axes do not line up: order of the entries is not preserved by any axis typing
    if neg:
        q = poly_div(tot, p)
        if q is None:
            raise_(I, 'TypeError', f'cannot reshape array of size {norm(tot)} into {[norm(s) for s in shape]}')
        shape = [q if s == Poly.const(-1) else s for s in shape]
    axes = tuple(((('mix', I.fresh()), s),) if s != ONE else ONESEG for s in shape)
    consts = {c for c in a.blocks.values()}
    if len(consts) == 1 and isinstance(next(iter(consts)), Poly) and next(iter(consts)).as_const() is not None:
        c = next(iter(consts))
        axes = tuple(((None, s),) for s in shape)
        return a.but(axes=axes, blocks={tuple(0 for _ in axes): c}, cval=None)
    return a.but(axes=axes, blocks={tuple(0 for _ in axes): bad('reshape mixes axes')}, cval=None)


def poly_div(p, q):
    """p / q when q is a monomial or divides exactly by trial; None otherwise."""
    if q.as_const() is not None:
        c = q.as_const()
        return p.scale(Fraction(1) / c) if c else None
    if p == q:
        return ONE
    if len(q.t) == 1:
        (m, c), = q.t.items()
        out = {}
        for mm, cc in p.t.items():
            d = dict(mm)
            for a, e in m:
                if d.get(a, 0) < e:
                    return None
                d[a] -= e
                if not d[a]:
                    del d[a]
            from .poly import akey
            out[tuple(sorted(d.items(), key=akey))] = Fraction(cc) / c
        return Poly(out)
    # long division by a multi-term polynomial (leading term by key order)
    from .poly import akey
    rem, quo = p, ZERO
    lead = max(q.t, key=lambda m: (len(m), str([akey(x) for x in m])))
    lc = q.t[lead]
    for _ in range(40):
        if rem.is_zero():
            return quo
        hit = None
        for mm, cc in rem.t.items():
            d = dict(mm)
            if all(d.get(a, 0) >= e for a, e in lead):
                for a, e in lead:
                    d[a] -= e
                    if not d[a]:
                        del d[a]
                hit = Poly({tuple(sorted(d.items(), key=akey)): Fraction(cc) / lc})
                break
        if hit is None:
            return None
        quo = quo + hit
        rem = rem - hit * q
    return None


def broadcast_to(I, a, shape):
    shape = [topoly(s) for s in shape]
    if len(shape) < a.rank:
        raise_(I, 'ValueError', f'broadcast_to rank {len(shape)} < {a.rank}')
    off = len(shape) - a.rank
    axes = []
    for i, s in enumerate(shape):
        if i < off:
            axes.append(((None, s),))
        else:
            ax = a.axes[i - off]
            if axis_size(ax) == s:
                axes.append(ax)
            elif axis_size(ax) == ONE:
                axes.append(((None, s),))
            else:
                raise_(I, 'ValueError', f'cannot broadcast {norm(axis_size(ax))} to {norm(s)}')
    blocks = {}
    for k in keys(axes):
        blocks[k] = a.blocks[tuple(k[off:])] if off or True else None
    return a.but(axes=tuple(axes), blocks=blocks, cval=None)


def is_zero_c(c):
    return isinstance(c, Poly) and c.is_zero()


def is_fill(c):
    return isinstance(c, Poly) and c == Poly.const(-1)


def concat(I, arrs, axis, dt=None, stage=None):
    r = arrs[0].rank
    for a in arrs:
        if a.rank != r:
            raise_(I, 'TypeError', 'concatenate arrays of different rank')
    if r == 0:
        raise_(I, 'ValueError', 'zero-dimensional arrays cannot be concatenated')
    axis %= r
    other = []
    maps = []
    allok = True
    for d in range(r):
        if d == axis:
            other.append(None)
            maps.append(None)
            continue
        szs = {axis_size(a.axes[d]) for a in arrs}
        if len(szs) > 1:
            raise_(I, 'TypeError', f'concatenate: shapes differ in dimension {d}: {sorted(str(norm(s)) for s in szs)}')
        ax, m, ok = unify_axes(I, [a.axes[d] for a in arrs])
        if next(iter(szs)) == ONE:
            ax = ONESEG
        other.append(ax)
        maps.append(m)
        allok = allok and ok
    segs, blocks = [], {}
    oaxes = [x for i, x in enumerate(other) if i != axis]
    for ai, a in enumerate(arrs):
        for si, seg in enumerate(a.axes[axis]):
            if seg[1].is_zero():
                continue
            new = {}
            for k in keys(oaxes):
                full = list(k)
                full.insert(axis, None)
                src = tuple(si if d == axis else maps[d][ai][full[d]] for d in range(r))
                c = a.blocks[src]
                if not allok and not (isinstance(c, Poly) and c.as_const() is not None):
                    c = bad('concatenated values have different axis order')
                new[k] = c
            vals = list(new.values())
            # zero / -1 padding behind the entries of a Jacobian or an index pattern is no new segment
            if segs and (klike(segs[-1][0]) or segs[-1][0] == PAD) and seg[0] is None and (
                    all(is_zero_c(c) for c in vals) and a.dt.kind != 'i' or all(is_fill(c) for c in vals)):
                seg = (PAD, seg[1])
                if segs[-1][0] == PAD:
                    segs[-1] = (PAD, segs[-1][1] + seg[1])
                    continue
            m = merge_rng(segs[-1], seg) if segs else None
            if m is not None and all(blocks[(len(segs) - 1, k)] == new[k] for k in new):
                segs[-1] = m
                continue
            segs.append(seg)
            for k, c in new.items():
                blocks[(len(segs) - 1, k)] = c
    if not segs:
        segs = [(None, ZERO)]
        for k in keys(oaxes):
            blocks[(0, k)] = ZERO
    axes = list(oaxes)
    axes.insert(axis, tuple(segs))
    out = {}
    for (si, k), c in blocks.items():
        kk = list(k)
        kk.insert(axis, si)
        out[tuple(kk)] = c
    return Arr(tuple(axes), out, dt or arrs[0].dt, stage or arrs[0].stage)


def merge_rng(a, b):
    la, lb = a[0], b[0]
    if la and lb and la[0] == 'rng' and lb[0] == 'rng' and la[1] == lb[1] and la[3] == lb[2]:
        return (mk_rng(la[1], la[2], lb[3], la[4]), a[1] + b[1])
    if la and lb and la[0] == '*' and lb[0] == '*' and la[1][1:] == lb[1][1:]:
        m = merge_rng(la[1][0], lb[1][0])
        if m is not None:
            return (mk_star([m] + list(la[1][1:])), a[1] + b[1])
    if a[0] is None and b[0] is None:
        return (None, a[1] + b[1])
    return None


def mk_rng(l, lo, hi, full):
    if l is None:
        return None
    if lo.is_zero() and hi == full:
        return l
    return ('rng', l, lo, hi, full)


def slice_axis(I, a, d, lo, hi):
    """a[lo:hi] along axis d; lo/hi Poly or None."""
    ax = a.axes[d]
    n = axis_size(ax)

    def clip(x, default):
        if x is None:
            return default
        x = topoly(x)
        s = I.models.sign(I, x)
        if s is None:
            # negative start index written as a negative constant or symbol
            raise Unknown('slice bound of unknown sign')
        if s < 0:
            return n + x
        return x
    lo, hi = clip(lo, ZERO), clip(hi, n)
    if lo == hi:
        return a.but(axes=a.axes[:d] + (((None, ZERO),),) + a.axes[d + 1:],
                     blocks={k: ZERO for k in keys(a.axes[:d] + (((None, ZERO),),) + a.axes[d + 1:])}, cval=None)
    pos = ZERO
    segs, pick = [], []
    single = {}
    for i, (l, s) in enumerate(ax):
        end = pos + s
        # intersection with [lo, hi)
        b = pos if I.models.le(I, lo, pos) else lo
        e = end if I.models.le(I, end, hi) else hi
        if b == pos and e == end and I.models.le(I, lo, pos) and I.models.le(I, end, hi):
            segs.append((l, s))
            pick.append(i)
        elif I.models.le(I, e, b):
            pass
        else:
            base, off, full = (l[1], l[2], l[4]) if l is not None and l[0] == 'rng' else (l, ZERO, s)
            if l is not None and l[0] == '*':
                # cutting the leading factor of a product axis
                inner = ONE
                for _, m in l[1][1:]:
                    inner = inner * m
                qb, qe = poly_div(b - pos, inner), poly_div(e - pos, inner)
                if qb is not None and qe is not None and l[1][0][0] is not None:
                    l0, n0 = l[1][0]
                    nl = mk_star([(mk_rng(l0, qb, qe, n0), qe - qb)] + list(l[1][1:]))
                    segs.append((nl, e - b))
                    pick.append(i)
                    pos = end
                    continue
            if e - b == ONE and l is not None and l != PAD:
                single[len(segs)] = (l, b - pos, s)       # one row: its position goes into the contents
                segs.append((None, ONE))
            else:
                segs.append((mk_rng(base, off + b - pos, off + e - pos, full), e - b))
            pick.append(i)
        pos = end
    if not segs:
        raise Unknown('empty slice')
    axes = a.axes[:d] + (tuple(segs),) + a.axes[d + 1:]
    blocks = {}
    for k in keys(axes):
        kk = list(k)
        kk[d] = pick[k[d]]
        blocks[k] = a.blocks[tuple(kk)]
        if k[d] in single:
            l, i, n = single[k[d]]
            blocks[k] = at_content(I, blocks[k], l, i, n)
    return a.but(axes=axes, blocks=blocks, cval=None)


def at_axis(I, a, d, i):
    """a[..., i, ...] along axis d for an integer-like i."""
    ax = a.axes[d]
    n = axis_size(ax)
    i = topoly(i)
    s = I.models.sign(I, i)
    if s is not None and s < 0:
        i = n + i
    if n.as_const() is not None and i.as_const() is not None and not 0 <= i.as_const() < n.as_const():
        raise_(I, 'IndexError', f'index {norm(i)} out of bounds for axis of size {norm(n)}')
    pos = ZERO
    for j, (l, sz) in enumerate(ax):
        if i == pos and (sz == ONE or l is None):
            return drop_axis(a, d, j)
        if l is None and len(ax) == 1:
            return drop_axis(a, d, j)
        if I.models.le(I, pos, i) and I.models.lt(I, i, pos + sz):
            out = drop_axis(a, d, j)
            rel = i - pos
            return out.but(blocks={k: at_content(I, c, l, rel, sz) for k, c in out.blocks.items()})
        pos = pos + sz
    raise Unknown('integer index of unknown position')


def at_content(I, c, l, i, n):
    if c is None:
        return None
    if l is None:
        return c
    if isinstance(c, tuple):
        if l[0] == 'rng':
            i, l, n = i + l[2], l[1], l[4]
        if comps(l) and comps(l) <= I.models.constant_axes:
            return c          # the operands' patterns are the same along this axis
        if i.is_zero():
            return ('first', l, c)
        return ('at', l, i, c)
    if not depends(I, c, l):
        return c
    if l[0] == 'rng':
        i, l, n = i + l[2], l[1], l[4]
    if l[0] == '*':
        return Poly.atom(('app', f'at[{show_label(l)}={norm(i)}]', (c,), (0,), c.is_real(), 'lin'))

    def f(atom):
        if atom[0] == 'delta' and atom[1] == l:
            return None
        if atom_depends(I, atom, l):
            if atom[0] == 'v':
                nm = ('at', atom[1], l, i)
                I.models.deps.setdefault(nm, frozenset(x for x in (I.models.deps.get(atom[1]) or frozenset()) if x != l))
                return Poly.atom(('v', nm, atom[2]))
            if atom[0] == 'app' and atom[5] == 'ew':
                return None
        return None
    if any(a[0] == 'delta' and a[1] == l for a in c.atoms()):
        return c * Poly.atom(('v', ('row', l, i), True))
    out = c.subst(f)
    if out == c:
        return Poly.atom(('app', f'at[{show_label(l)}={norm(i)}]', (c,), (0,), c.is_real(), 'lin'))
    return out


def show_label(l):
    if l is None:
        return '-'
    if l[0] == '*':
        return '*'.join(show_label(x) for x, _ in l[1])
    return ':'.join(str(x) for x in l)


def drop_axis(a, d, j):
    return a.but(axes=a.axes[:d] + a.axes[d + 1:],
                 blocks={k[:d] + k[d + 1:]: c for k, c in a.blocks.items() if k[d] == j}, cval=None)


# ------------------------------------------------------------------ dependence / reductions
def atom_depends(I, a, l):
    cs = comps(l)
    k = a[0]
    if k in ('i', 'eps', 'n'):
        return False
    if k == 'conj':
        return atom_depends(I, a[1], l)
    if k == 'v':
        d = I.models.deps.get(a[1])
        return True if d is None else bool(d & cs)
    if k == 'S':
        if klike(l):
            return True
        d = I.models.deps.get(a[1])
        return True if d is None else bool(d & cs)
    if k == 'delta':
        return a[1] == l or bool(comps(a[1]) & cs)
    if k == 'app':
        if a[5] == 'ew':
            return any(depends(I, p, l) for p in a[2] if isinstance(p, Poly))
        if isinstance(a[5], tuple) and a[5][0] == 'op':
            if cs & a[5][2]:
                return True
            if has_slot_delta(a, l):
                return True
            if cs and cs <= a[5][1]:
                return False
            return any(depends(I, p, l) for p in a[2] if isinstance(p, Poly))
        return True
    return True


def has_slot_delta(a, l):
    return slot_deltas(a, l) > 0


def slot_deltas(a, l):
    n = 0
    for p in a[2]:
        if isinstance(p, Poly):
            for m in p.t:
                for q, e in m:
                    if q[0] == 'delta' and q[1] == l:
                        n += int(e)
    return n


def contract_slots(I, c, l, n, kaxes, others):
    """Sum over l of a content with unit tangents e_l inside derivative slots; None: undecided."""
    out = ZERO
    nleft = sum(1 for o in others if o == l)
    for m, k in c.t.items():
        hit = [(a, e) for a, e in m if a[0] == 'app' and has_slot_delta(a, l)]
        if not hit:
            s = sum_content(I, Poly({m: k}), l, n, kaxes, others)
            if s is None:
                return None
            out = out + s
            continue
        if len(hit) != 1 or hit[0][1] != 1:
            return None
        a = hit[0][0]
        cnt = slot_deltas(a, l)
        if cnt > 1 and nleft >= cnt - 1 and nleft > 0:
            out = out + Poly({m: k})        # the other axis with this label is summed later
            continue
        if nleft:
            return None
        facs, rest = [], []
        for q, e in m:
            if q == a:
                continue
            if q[0] == 'delta' and q[1] != l and q[1] in others and comps(q[1]) <= comps(l):
                continue                    # ties an output axis to the part of l it came from
            if atom_depends(I, q, l):
                facs += [(q, 1)] * int(e) if e == int(e) and e > 0 else [(q, e)]
            else:
                rest.append((q, e))
        if cnt == 1:
            fill = [Poly({(): 1})]
            p = ONE
            for q, e in facs:
                p = p * Poly.atom(q, e)
            fill = [p]
        elif len(facs) == cnt and all(e == 1 for _, e in facs):
            fill = [Poly.atom(q) for q, _ in facs]
        else:
            return None
        it = iter(fill)
        new = []
        for p in a[2]:
            if isinstance(p, Poly) and len(p.t) == 1:
                (mm, cc), = p.t.items()
                if any(q[0] == 'delta' and q[1] == l for q, _ in mm):
                    r = Poly({tuple(z for z in mm if not (z[0][0] == 'delta' and z[0][1] == l)): cc})
                    p = r * next(it)
            new.append(p)
        nb = len(new) - (len(a[3]) - 1)
        slots = sorted(zip(a[3][1:], new[nb:]), key=lambda z: (z[0], str(z[1])))
        at = ('app', a[1], tuple(new[:nb]) + tuple(z[1] for z in slots), ('D',) + tuple(z[0] for z in slots),
              a[4] and all(z[1].is_real() for z in slots), a[5])
        if a[3] == (0,):
            at = ('app', a[1], tuple(new), a[3], a[4], a[5])
        out = out + Poly({tuple(rest): k}) * Poly.atom(at)
    return out


def depends(I, p, l):
    return any(atom_depends(I, a, l) for a in p.atoms())


def jdeg(I, m):
    """Jacobian factors of a monomial: list of (name, kind, index term)."""
    out = []
    for a, e in m:
        b = a[1] if a[0] == 'conj' else a
        if b[0] == 'S':
            out += [(b[1], 'S', b[2])] * int(e)
        elif b[0] == 'v' and isinstance(b[1], str) and b[1] in I.models.jnames:
            out += [(b[1], 'v', None)] * int(e)
        elif a[0] == 'app':
            for p in a[2]:
                if isinstance(p, Poly):
                    for mm in p.t:
                        out += jdeg(I, mm)
    return out


def densify(p):
    """Replace stored Jacobian data by the dense symbol of the same Jacobian (after summing over inputs)."""
    def f(a):
        if a[0] == 'S':
            return Poly.atom(('v', a[1], a[3]))
        return None
    return p.subst(f)


def sum_content(I, c, l, n, kaxes, others=()):
    """Content of the sum over an axis with label l and size n; kaxes = K-like axes of the array incl. l."""
    if c is None:
        return None
    if isinstance(c, tuple):
        return ('sum', c, l)
    if l is not None and any(a[0] == 'app' and has_slot_delta(a, l) for a in c.atoms()):
        return contract_slots(I, c, l, n, kaxes, others)
    if l is not None and l[0] == '*':
        if any(a[0] == 'delta' and a[1] == l for a in c.atoms()):
            out = ZERO
            for m, k in c.t.items():
                d = [a for a, _ in m if a[0] == 'delta' and a[1] == l]
                if d:
                    out = out + Poly({tuple(x for x in m if x[0] != d[0]): k})
                else:
                    r = sum_content(I, Poly({m: k}), l, n, kaxes, others)
                    if r is None:
                        return None
                    out = out + r
            return out
        nk = kaxes
        for x, s in l[1]:
            c = sum_content(I, c, x, s, nk, others)
            if klike(x):
                nk -= 1
        return c
    if l is not None and klike(l):
        out = ZERO
        for m, k in c.t.items():
            one = Poly({m: k})
            js = jdeg(I, m)
            if not js:
                if one.bad():
                    out = out + one
                elif not depends(I, one, l):
                    out = out + one * n
                else:
                    out = out + one
                continue
            hidden = sum(1 for x, _ in I.models.vlevels if klike(x))
            if len(js) - (kaxes - 1) - hidden != 2 and not (hidden and len(js) - (kaxes - 1) == 2):
                out = out + bad('Jacobian entries of different inputs are added up')
                continue
            (n1, k1, t1), (n2, k2, t2) = js[:2]
            if l[0] == '&':
                out = out + bad('products of Jacobian entries with different index patterns')
            elif k1 != k2:
                out = out + bad('sparse and dense Jacobian entries are paired')
            elif k1 == 'S' and t1 != t2:
                out = out + bad('Jacobian entries of different index sets are paired')
            elif k1 == 'S' and t1[0] == 'M':
                out = out + bad('entrywise product of stored Jacobian values whose index pattern may repeat an input')
            elif k1 == 'S' and t1[0] == 'I' and n1 == n2:
                out = out + bad('index set is restricted to the intersection but the square of one Jacobian is needed')
            else:
                out = out + densify(one)
        return out
    out = ZERO
    for m, k in c.t.items():
        one = Poly({m: k})
        d = [a for a, _ in m if a[0] == 'delta' and a[1] == l]
        if d:
            out = out + Poly({tuple(x for x in m if x[0] != d[0]): k})
        elif one.bad() or depends(I, one, l):
            out = out + one
        else:
            out = out + one * n
    return out


def nk(axes):
    t = 0
    for ax in axes:
        for l, _ in ax:
            if klike(l):
                t += 1
                break
    return t


def reduce_sum(I, a, dims, keepdims=False):
    dims = sorted({d % a.rank for d in dims}, reverse=True) if a.rank else []
    for d in dims:
        kx = nk(a.axes)
        ax = a.axes[d]
        blocks = {}
        for k, c in a.blocks.items():
            kk = k[:d] + k[d + 1:]
            l, n = ax[k[d]]
            s = sum_content(I, c, l, n, kx, [x[0] for i, z in enumerate(a.axes) if i != d for x in [z[k[i]]] if x[1] != ONE]) if n != ONE else c
            if kk not in blocks:
                blocks[kk] = s
            elif blocks[kk] is None or s is None:
                blocks[kk] = None
            elif isinstance(s, Poly) and isinstance(blocks[kk], Poly):
                blocks[kk] = blocks[kk] + s
            else:
                blocks[kk] = ('add', blocks[kk], s)
        a = a.but(axes=a.axes[:d] + a.axes[d + 1:], blocks=blocks, cval=None)
        if keepdims:
            a = expand(I, a, d)
    return a


def reduce_term(I, a, dims, op):
    """Opaque reductions (max, any, all, argmax ...) of index terms."""
    dims = sorted({d % a.rank for d in dims}, reverse=True) if a.rank else []
    for d in dims:
        ax = a.axes[d]
        blocks = {}
        for k, c in a.blocks.items():
            kk = k[:d] + k[d + 1:]
            l, n = ax[k[d]]
            if c is None:
                s = None
            elif n == ONE and op in ('max', 'min', 'any', 'all'):
                s = c
            else:
                s = red_term(I, op, c, l, n, a, d)
            if kk in blocks:
                x = blocks[kk]
                one, zero = [Poly.const(v) for v in ((1, 0) if op == 'any' else (0, 1))]
                if op in ('any', 'all') and (x == one or s == one):
                    s = one
                elif op in ('any', 'all') and (x == zero or s == zero):
                    s = x if s == zero else s
                else:
                    s = None if x is None or s is None else (x if x == s else (op, frozenset([x, s])))
            blocks[kk] = s
        a = a.but(axes=a.axes[:d] + a.axes[d + 1:], blocks=blocks, cval=None)
    return a


def red_term(I, op, c, l, n, a, d):
    if isinstance(c, Poly):
        if c.as_const() is not None and op in ('max', 'min'):
            return c
        if c.as_const() is not None and op in ('any', 'all'):
            return c
        return (op, c, l)
    if c[0] == 'eq' and op in ('argmax', 'any'):
        t1, t2 = c[1], c[2]
        d1, d2 = tdeps(I, t1), tdeps(I, t2)
        cl = comps(l) if l is not None else frozenset()
        in1, in2 = bool(cl & d1), bool(cl & d2)
        if in2 and not in1:
            return ('argeq', t1, t2) if op == 'argmax' else ('anyeq', t1, t2)
        if in1 and not in2:
            return ('argeq', t2, t1) if op == 'argmax' else ('anyeq', t2, t1)
    if op == 'max' and c[0] in ('max', 'nuniq', 'cnt'):
        return c
    if op in ('any', 'all') and c[0] == 'ne' and c[2] in (-1, Poly.const(-1)) and c[1][0] in ('I', 'U') and n == Poly.atom(('n', ('cnt', c[1]))):
        return Poly.const(1)          # a pattern of a single output carries no padding
    if op == 'max':
        return ('max', strip_max(c))
    if op == 'all' and c[0] == 'all':
        return c
    if op == 'all':
        return ('all', c) if c[0] != 'all' else c
    return (op, c, l)


def strip_max(c):
    return c[1] if c[0] == 'max' else c


def tdeps(I, t):
    """K-like labels an index term varies along."""
    if isinstance(t, Poly) or not isinstance(t, tuple):
        return frozenset()
    if t[0] == 'M':
        return frozenset([('K', t[1])])
    if t[0] in ('trunc', 'badfill'):
        return frozenset([('O', t)])
    if t[0] in ('U', 'I', 'full'):
        return frozenset([('O', t)]) if t[0] != 'full' else frozenset([('O', t), ('J',)])
    out = frozenset()
    for x in t[1:]:
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            if x[0] in ('K', 'J', 'O'):
                continue
            out |= tdeps(I, x)
        elif isinstance(x, frozenset):
            for y in x:
                out |= tdeps(I, y)
    return out


def einsum(I, spec, arrs, dt, stage):
    spec = spec.replace(' ', '')
    if '->' in spec:
        ins, out = spec.split('->')
    else:
        ins, out = spec, None
    ins = ins.split(',')
    if len(ins) != len(arrs):
        raise_(I, 'ValueError', 'einsum: number of operands')
    # expand ellipsis
    nell = 0
    ell = []
    for s, a in zip(ins, arrs):
        k = len(s.replace('...', ''))
        if '...' in s:
            if a.rank < k:
                raise_(I, 'ValueError', f'einsum {spec}: rank {a.rank}')
            ell.append(a.rank - k)
            nell = max(nell, a.rank - k)
        else:
            if a.rank != k:
                raise_(I, 'ValueError', f'einsum {spec}: operand of rank {a.rank}')
            ell.append(0)
    ell_letters = [('.', i) for i in range(nell)]

    def letters(s, e):
        if '...' in s:
            i = s.index('...')
            return list(s[:i]) + ell_letters[nell - e:] + list(s[i + 3:])
        return list(s)
    opl = [letters(s, e) for s, e in zip(ins, ell)]
    if out is None:
        cnt = {}
        for l in opl:
            for x in l:
                if isinstance(x, str):
                    cnt[x] = cnt.get(x, 0) + 1
        out_l = ell_letters + sorted(x for x, c in cnt.items() if c == 1)
    else:
        out_l = letters(out, nell)
    # repeated letters within one operand -> diagonal
    arrs = list(arrs)
    for i, l in enumerate(opl):
        for x in list(l):
            while l.count(x) > 1:
                p, q = [j for j, y in enumerate(l) if y == x][:2]
                arrs[i] = diagonal(I, arrs[i], p, q, keep=p)
                del l[q]
    order = []
    for l in opl:
        for x in l:
            if x not in order:
                order.append(x)
    for x in out_l:
        if x not in order:
            raise_(I, 'ValueError', f'einsum {spec}: unknown output letter')
    red = [x for x in order if x not in out_l]
    full = out_l + red
    aligned = []
    for a, l in zip(arrs, opl):
        a2 = transpose(I, a, [l.index(x) for x in full if x in l])
        for j, x in enumerate(full):
            if x not in l:
                a2 = expand(I, a2, j)
        aligned.append(a2)
    # sizes of a letter must agree (size 1 does not broadcast for named letters)
    for j, x in enumerate(full):
        szs = {axis_size(a.axes[l.index(x)]) for a, l in zip(arrs, opl) if x in l}
        if len(szs) > 1 and not (not isinstance(x, str) and szs - {ONE} and len(szs - {ONE}) == 1):
            raise_(I, 'ValueError', f'einsum {spec}: size mismatch {sorted(str(norm(s)) for s in szs)}')
    p = aligned[0]
    for q in aligned[1:]:
        p = pointwise(I, [p, q], lambda a, b: mul_c(a, b), dt, stage)
    if len(aligned) == 1:
        p = p.but(dt=dt, stage=stage)
    return reduce_sum(I, p, range(len(out_l), len(full)))


def mul_c(a, b):
    if isinstance(a, Poly) and isinstance(b, Poly):
        return a * b
    if a is None or b is None:
        return None
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Poly):
            if x == ONE:
                return y
            if x.is_zero():
                return ZERO
    return ('mul', a, b)


def diagonal(I, a, p, q, keep=None):
    """Pointwise diagonal of axes p, q; the resulting axis is placed at `keep` (default: last)."""
    if axis_size(a.axes[p]) != axis_size(a.axes[q]):
        raise Unknown('diagonal of a non-square array')
    ap, aq = a.axes[p], a.axes[q]
    ax, _, ok = unify_axes(I, [ap, aq])
    blocks = {}
    lo, hi = min(p, q), max(p, q)
    for k, c in a.blocks.items():
        i, j = k[p], k[q]
        if len(ap) > 1 or len(aq) > 1:
            if len(ap) == len(aq):
                if i != j:
                    continue
            else:
                raise Unknown('diagonal of segmented axes')
        kk = list(k)
        del kk[hi], kk[lo]
        l, n = ax[max(i, j)] if len(ax) > 1 else ax[0]
        if c is None or isinstance(c, tuple):
            r = None
        elif n == ONE:
            r = c
        elif not ok:
            r = bad('diagonal over different axes')
        elif klike(l):
            r = c
        else:
            r = ZERO
            for m, kf in c.t.items():
                d = [x for x, _ in m if x[0] == 'delta' and x[1] == l]
                one = Poly({m: kf})
                if d:
                    r = r + Poly({tuple(x for x in m if x[0] != d[0]): kf})
                elif depends(I, one, l):
                    r = r + one * Poly.atom(('v', 'DIAG', True))
                else:
                    r = r + one
        kk.append(max(i, j) if len(ax) > 1 else 0)
        blocks[tuple(kk)] = r
    axes = [x for i, x in enumerate(a.axes) if i not in (p, q)] + [ax]
    out = a.but(axes=tuple(axes), blocks=blocks, cval=None)
    if keep is not None:
        # position of the kept axis among remaining axes
        pos = keep if keep < hi else keep - 1
        out = moveaxis(I, out, out.rank - 1, pos)
    return out
