"""Every registered operation in every operand mix: end-to-end evaluation of its rule on abstract operands."""
from .world import *
from .interp import AbsRaise, Unknown, Budget
from . import oracle as O
from .values import *
from .poly import Poly, ZERO, ONE

FC = ('f', 'c')
# elementwise primitives: name -> (arity, complex capable)
EW1 = ['neg', 'sqrt', 'rsqrt', 'log', 'log1p', 'exp', 'expm1', 'tanh', 'logistic', 'acos', 'asin', 'atan', 'cos', 'sin', 'tan', 'abs']
EW2 = ['add', 'sub', 'mul', 'div', 'pow', 'atan2', 'max', 'min']
NOLAP1 = ['sign', 'stop_gradient', 'not', 'is_finite']
NOLAP2 = ['eq', 'lt', 'le', 'gt', 'ge', 'ne', 'xor', 'and', 'or']


class Cfg:
    def __init__(self, prim, ops, params=None, key='', tags=(), outs=None, need=None, vec=None):
        self.prim, self.ops, self.params, self.tags, self.need, self.vec = prim, ops, params, set(tags), need, vec
        self.id = f'{prim}[{",".join(o[0] + (":" + o[2].get("tag", "") if len(o) > 2 and o[2].get("tag") else "") for o in ops)}]{key}'

    def __repr__(self):
        return self.id


def build(W, cfg):
    args = []
    W.I.models.constant_axes = frozenset(('A', t[6:]) for t in cfg.tags if t.startswith('const:'))
    for i, o in enumerate(cfg.ops):
        kw = dict(o[2]) if len(o) > 2 else {}
        kw.pop('tag', None)
        dt = kw.pop('dt', F)
        if o[0] in 'sd':
            args.append(W.lapl(i, o[1], o[0] == 's', dt=dt, **kw))
        elif o[0] == 'c':
            args.append(W.plain(f'x{i}', o[1], dt))
        elif o[0] == 'n':
            args.append(W.np_plain(f'x{i}', o[1], kw.get('np', I32)))
        elif o[0] == 'v':
            args.append(o[1](W) if callable(o[1]) else o[1])
    params = cfg.params(W) if callable(cfg.params) else dict(cfg.params or {})
    return args, params


def run(project, cfg, thr=None, rec=None):
    """-> (Outcome, World)"""
    W = World(project, hooks=rec.hooks() if rec else None)
    if rec:
        rec.loaded = len(rec.recs)
    out = O.Outcome()
    try:
        args, params = build(W, cfg)
        t = W.n('thr', 0) if thr is None else thr
        prim = cfg.prim[1:] if cfg.prim.startswith(':') else W.prim(cfg.prim)
        base = cfg.vec(W) if cfg.vec else W.ref_fn(cfg.prim, params)
        refs = O.mkref(W.I, base, args)
    except (AbsRaise, Unknown, Budget) as e:
        out.add('und', 'ref', f'reference: {e}')
        out.n += 1
        return out, W
    try:
        f = W.rule(prim)
        W.used_rule, W.used_args, W.used_params = f, args, params
        res = W.I.call(f, (tuple(args), W.I.new_dict(tuple(params.items())), t), {})
    except AbsRaise as e:
        out.n += 1
        kind = 'bad' if not W.I.notes else 'und'
        out.add(kind, 'raise', f'raises {exc_name(e)} at {e.where}')
        if W.I.exc_name(e.exc) in TRACE_ERRORS:
            out.add(kind, 'trace', f'a traced value is needed concretely: {exc_name(e)} at {e.where}')
        return out, W
    except (Unknown, Budget) as e:
        out.n += 1
        out.add('und', 'unknown', f'{type(e).__name__} {e} at {W.I.where()}')
        return out, W
    O.check_result(W.I, res, refs, out, cfg.need)
    tracing(W.I, out)
    return out, W


TRACE_ERRORS = {'jax.errors.TracerArrayConversionError', 'jax.errors.ConcretizationTypeError', 'jax.errors.TracerBoolConversionError'}


def tracing(I, out):
    """Traced values that reach code which needs concrete ones, on a path that depends on sizes and patterns only."""
    seen = set()
    for e in I.events:
        if e['kind'] != 'maybe_raise' or e['tried'] or I.exc_name(e['exc']) not in TRACE_ERRORS:
            continue
        cond = list(e['assume'].items()) + [e['guard']]
        if e['where'] in seen or any(g[0] not in ('gt', 'eq0') for g, _ in cond):
            continue
        seen.add(e['where'])
        out.n += 1
        out.add('bad', 'trace', f'{I.exc_name(e["exc"]).rsplit(".", 1)[1]} at {e["where"]}', cond)


def exc_name(e):
    d = getattr(e.exc, 'data', None) if hasattr(e, 'exc') else None
    return str(e)[:200]


def perms(mix, spec, **kw):
    return [(m, spec, kw) if m in 'sd' and kw else (m, spec) for m in mix]


def configs():
    C = []
    ab = ['a', 'b']
    for p in EW1:
        for m in 'sd':
            C.append(Cfg(p, [(m, ab)], {}))
        C.append(Cfg(p, [('s', [])], {}, key='scalar'))
        C.append(Cfg(p, [('d', [])], {}, key='scalar'))
    for p in (':logaddexp',) + tuple(EW2):
        for m in ('ss', 'sd', 'ds', 'dd', 'sc', 'cs', 'dc', 'cd'):
            C.append(Cfg(p, [(m[0], ab), (m[1], ab)], {}))
        if not p.startswith(':'):
            for m in ('ss', 'sd', 'ds', 'sc', 'cd'):
                C.append(Cfg(p, [(m[0], []), (m[1], [])], {}, key='scalar'))
                C.append(Cfg(p, [(m[0], ['a', 1]), (m[1], ['a', 1])], {}, key='unit'))
        # the same index pattern on both operands
        C.append(Cfg(p, [('s', ab, {'mask': 'mJ0', 'tag': 'same', 'kname': 'kJ0'}), ('s', ab, {'mask': 'mJ0', 'tag': 'same', 'kname': 'kJ0'})], {}))
        if p.startswith(':'):
            C.append(Cfg(p, [('s', ['a', 1]), ('s', [1, 'b'])], {}, key='bcast'))
            C.append(Cfg(p, [('d', ['a', 1]), ('d', [1, 'b'])], {}, key='bcast'))
            C.append(Cfg(p, [('s', ab), ('s', ['b'])], {}, key='bcastrank'))
    for p in (':sigmoid', ':softplus', ':silu'):
        for m in 'sd':
            C.append(Cfg(p, [(m, ab)], {}))
    for m in 'sd':
        for y in (2, 3, -1):
            C.append(Cfg('integer_pow', [(m, ab)], {'y': y}, key=f'y={y}'))
    CX = {'dt': C_}
    for p in ('conj', 'real', 'imag', 'abs', 'exp', 'log', 'sin', 'neg'):
        for m in 'sd':
            par = {'input_dtype': ExtV('np.dtype(complex)')} if p == 'conj' else {}
            C.append(Cfg(p, [(m, ab, dict(CX, tag='complex'))], {}, key='C'))
    for p in ('real', 'imag', 'conj'):
        pass
    for p in ('add', 'mul', 'div', 'sub'):
        for m in ('ss', 'sd', 'dd', 'sc', 'cs'):
            C.append(Cfg(p, [(x, ab, dict(CX)) for x in m], {}, key='C'))
    for p in NOLAP1:
        for m in 'sd':
            C.append(Cfg(p, [(m, ab)], {}, need='plain', tags=['nolap']))
    C.append(Cfg(':sign', [('s', ab)], {}, need='plain', tags=['nolap']))
    for p in NOLAP2:
        for m in ('ss', 'dc', 'cs'):
            C.append(Cfg(p, [(m[0], ab), (m[1], ab)], {}, need='plain', tags=['nolap']))
    # reductions
    abc = ['a', 'b', 'c']
    for p in ('reduce_sum', 'reduce_max', 'reduce_min', 'reduce_prod'):
        for m in 'sd':
            for ax in ((0,), (1,), (2,), (0, 2), (1, 2), (0, 1, 2)):
                C.append(Cfg(p, [(m, abc)], {'axes': ax}, key=f'axes={ax}'))
    for m in 'sd':
        for ax in (0, 1):
            for r in (False, True):
                C.append(Cfg('cumsum', [(m, ab)], {'axis': ax, 'reverse': r}, key=f'{ax}{r}'))
    # rearrangements
    for m in 'sd':
        C.append(Cfg('broadcast_in_dim', [(m, ['a'])], lambda W: {'shape': (W.n('z'), W.n('a')), 'broadcast_dimensions': (1,)}, key='lead'))
        C.append(Cfg('broadcast_in_dim', [(m, ['a', 'b'])], lambda W: {'shape': (W.n('a'), W.n('z'), W.n('b')), 'broadcast_dimensions': (0, 2)}, key='mid'))
        C.append(Cfg('broadcast_in_dim', [(m, [])], lambda W: {'shape': (W.n('z'),), 'broadcast_dimensions': ()}, key='scalar'))
        C.append(Cfg('reshape', [(m, ab)], lambda W: {'new_sizes': (W.n('a') * W.n('b'),), 'dimensions': None}, key='flat'))
        C.append(Cfg('reshape', [(m, abc)], lambda W: {'new_sizes': (W.n('a'), W.n('b') * W.n('c')), 'dimensions': None}, key='tail'))
        C.append(Cfg('reshape', [(m, [('a', 6), 'b'])], lambda W: {'new_sizes': (2, 3, W.n('b')), 'dimensions': None}, key='split'))
        C.append(Cfg('reshape', [(m, ['a'])], lambda W: {'new_sizes': (W.n('a'), 1), 'dimensions': None}, key='unit'))
        C.append(Cfg('slice', [(m, ab)], lambda W: {'start_indices': (1, 0), 'limit_indices': (W.n('a', 3), W.n('b')), 'strides': None}))
        C.append(Cfg('squeeze', [(m, ['a', 1, 'b'])], {'dimensions': (1,)}))
        C.append(Cfg('transpose', [(m, abc)], {'permutation': (1, 2, 0)}))
        C.append(Cfg('transpose', [(m, abc)], {'permutation': (2, 1, 0)}, key='rev'))
        C.append(Cfg('rev', [(m, ab)], {'dimensions': (1,)}))
        C.append(Cfg('rev', [(m, ab)], {'dimensions': (0, 1)}, key='2'))
        C.append(Cfg('convert_element_type', [(m, ab)], lambda W: {'new_dtype': Dt('f', 'q'), 'weak_type': False}, key='f'))
        C.append(Cfg('convert_element_type', [(m, ab)], lambda W: {'new_dtype': Dt('c', 'q'), 'weak_type': False}, key='c'))
        C.append(Cfg('convert_element_type', [(m, ab)], lambda W: {'new_dtype': Dt('i', '32'), 'weak_type': False}, key='i', need='plain'))
        C.append(Cfg('convert_element_type', [(m, ab)], lambda W: {'new_dtype': Dt('b', 'b'), 'weak_type': False}, key='b', need='plain'))
        C.append(Cfg('dynamic_slice', [(m, ab), ('v', 1), ('v', 0)], lambda W: {'slice_sizes': (2, W.n('b'))}, key='const'))
        C.append(Cfg('dynamic_slice', [(m, ab), ('c', [], {'dt': I32}), ('v', 0)], lambda W: {'slice_sizes': (2, W.n('b'))}, key='traced'))
    for m in ('ss', 'sd', 'dd', 'sc', 'cs', 'dc', 'cd'):
        C.append(Cfg('concatenate', [(m[0], ['a', 'b']), (m[1], ['c', 'b'])], {'dimension': 0}))
        C.append(Cfg('concatenate', [(m[0], ['b', 'a']), (m[1], ['b', 'c'])], {'dimension': 1}, key='1'))
        C.append(Cfg('select_n', [('c', ab, {'dt': B_})] + [(x, ab) for x in m], {}))
    C.append(Cfg('concatenate', [('s', ['a']), ('d', ['b']), ('c', ['c'])], {'dimension': 0}, key='3'))
    C.append(Cfg('concatenate', [('c', ['a']), ('s', ['b']), ('s', ['c'])], {'dimension': 0}, key='3'))
    # data-dependent and static index operands
    for m in 'sd':
        for ix in ('c', 'n'):
            for sh in (('g',), ('g', 'b')):
                C.append(Cfg('gather', [(m, ab), (ix, ['g', 1], {'dt': I32, 'np': I32})], gather_params(sh), key='x'.join(sh)))
    for p in ('scatter', 'scatter_add', 'scatter_max', 'scatter_min'):
        for m in ('ss', 'sd', 'ds', 'dd', 'sc', 'cs', 'dc', 'cd'):
            for ix in ('c', 'n'):
                if ix == 'c' and m not in ('ss', 'sc', 'cs', 'dd'):
                    continue
                C.append(Cfg(p, [(m[0], ab), (ix, ['g', 1], {'dt': I32, 'np': I32}), (m[1], ['g', 'b'])], {'dimension_numbers': ModelV('dnums', 'rows')}))
    # contractions
    for key, l, r, dn in DOTS:
        for m in ('ss', 'sd', 'ds', 'dd', 'sc', 'cs', 'dc', 'cd'):
            C.append(Cfg('dot_general', [(m[0], l), (m[1], r)], dot_params(dn), key=key, tags=['dot']))
    more(C)
    # operations without a rule: generic wrap
    for m in ('s', 'd'):
        C.append(Cfg('opaque_op', [(m, ab)], {}, tags=['generic']))
    for m in ('ss', 'sd', 'dd', 'sc', 'cd'):
        C.append(Cfg('opaque_op', [(m[0], ab), (m[1], ['c'])], {}, tags=['generic']))
    return C


def more(C):
    """Other ranks, unit axes, scalar operands, more operands."""
    ab, abc = ['a', 'b'], ['a', 'b', 'c']
    CX = {'dt': C_}
    for p in EW1:
        for m in 'sd':
            C.append(Cfg(p, [(m, ['a', 1])], {}, key='unit'))
            C.append(Cfg(p, [(m, abc)], {}, key='3'))
    for p in EW2:
        for m in ('sc', 'cs', 'dc', 'cd', 'sn', 'ns'):
            i = 0 if m[0] in 'sd' else 1
            ax = [ab, []] if i == 0 else [[], ab]
            C.append(Cfg(p, [(m[0], ax[0]), (m[1], ax[1], {'np': F}) if m[1] == 'n' else (m[1], ax[1])] if m[0] != 'n' else [('n', [], {'np': F}), (m[1], ab)], {}, key='scalar operand'))
        for m in ('ss', 'sd', 'dd', 'sc', 'cd'):
            C.append(Cfg(p, [(m[0], abc), (m[1], abc)], {}, key='3'))
            C.append(Cfg(p, [(m[0], [1, 'b']), (m[1], [1, 'b'])], {}, key='unit first'))
    for p in ('sqrt', 'tanh', 'cos', 'logistic', 'integer_pow', 'expm1', 'log1p', 'tan'):
        for m in 'sd':
            C.append(Cfg(p, [(m, ab, dict(CX, tag='complex'))], {'y': 3} if p == 'integer_pow' else {}, key='C'))
    for p in ('add', 'mul', 'div', 'sub', 'pow'):
        for m in ('ds', 'dc', 'cd'):
            C.append(Cfg(p, [(x, ab, dict(CX)) for x in m], {}, key='C'))
        C.append(Cfg(p, [('s', ['a', 1], dict(CX)), ('s', ['a', 1], dict(CX))], {}, key='C unit'))
    for m in 'sd':
        for y in (4, -2, 1):
            C.append(Cfg('integer_pow', [(m, ab)], {'y': y}, key=f'y={y}'))
        C.append(Cfg('integer_pow', [(m, [])], {'y': 3}, key='scalar'))
        C.append(Cfg('pow', [(m, ab), ('c', [], {'dt': I32})], {}, key='integer exponent'))
        C.append(Cfg('pow', [(m, ab), ('c', ab, {'dt': I32})], {}, key='integer exponents'))
        for p in ('reduce_sum', 'reduce_max', 'reduce_min', 'reduce_prod'):
            C.append(Cfg(p, [(m, ['a'])], {'axes': (0,)}, key='1'))
            C.append(Cfg(p, [(m, ['a', 1])], {'axes': (1,)}, key='unit'))
            C.append(Cfg(p, [(m, [1, 'a'])], {'axes': (1,)}, key='unit first'))
            C.append(Cfg(p, [(m, ['a', 1])], {'axes': (0, 1)}, key='unit both'))
            C.append(Cfg(p, [(m, abc)], {'axes': (0, 1)}, key='axes=(0, 1)'))
            C.append(Cfg(p, [(m, ['a', 'b', 'c', 'd'])], {'axes': (1, 2)}, key='4axes=(1, 2)'))
            C.append(Cfg(p, [(m, ['a', 'b', 'c', 'd'])], {'axes': (0, 3)}, key='4axes=(0, 3)'))
        abcd = ['a', 'b', 'c', 'd']
        for p in ('reduce_sum', 'reduce_max', 'reduce_prod'):
            for axes in ((0,), (1,), (2,), (3,)):
                C.append(Cfg(p, [(m, abcd)], {'axes': axes}, key=f'4axes={axes}'))
        for ax in (0, 2):
            C.append(Cfg('cumsum', [(m, abcd)], {'axis': ax, 'reverse': False}, key=f'4 {ax}'))
        for per in ((3, 0, 1, 2), (1, 2, 3, 0), (2, 0, 3, 1)):
            C.append(Cfg('transpose', [(m, abcd)], {'permutation': per}, key=str(per)))
        C.append(Cfg('exp', [(m, abcd)], {}, key='4'))
        C.append(Cfg('rev', [(m, abcd)], {'dimensions': (1, 2)}, key='4'))
        C.append(Cfg('reshape', [(m, abcd)], lambda W: {'new_sizes': (W.n('a'), W.n('b') * W.n('c'), W.n('d')), 'dimensions': None}, key='4 middle'))
        C.append(Cfg('squeeze', [(m, ['a', 1, 'b', 'c'])], {'dimensions': (1,)}, key='4'))
        C.append(Cfg('broadcast_in_dim', [(m, abc)], lambda W: {'shape': (W.n('a'), W.n('z'), W.n('b'), W.n('c')), 'broadcast_dimensions': (0, 2, 3)}, key='4'))
        # index patterns that are the same along an axis, as broadcasting produces them
        if m == 's':
            for p in ('reduce_sum', 'reduce_max', 'reduce_prod'):
                for cst in ('a', 'b', 'c', 'd', 'bc', 'abcd'):
                    for axes in ((0,), (3,), (1, 2), (0, 1, 2, 3)):
                        if p == 'reduce_sum' or axes != (1, 2) and len(cst) == 1:
                            C.append(Cfg(p, [(m, abcd)], {'axes': axes}, key=f'4axes={axes} const {cst}', tags=['const:' + x for x in cst]))
            for cst in 'ab':
                for p in ('exp', 'integer_pow', 'erf'):
                    C.append(Cfg(p, [(m, ab)], {'y': 3} if p == 'integer_pow' else {}, key=f'const {cst}', tags=['const:' + cst]))
                C.append(Cfg('mul', [(m, ab), (m, ab)], {}, key=f'const {cst}', tags=['const:' + cst]))
                C.append(Cfg('add', [(m, ab), (m, ab)], {}, key=f'const {cst}', tags=['const:' + cst]))
                C.append(Cfg('cumsum', [(m, ab)], {'axis': 0, 'reverse': False}, key=f'const {cst} 0', tags=['const:' + cst]))
                C.append(Cfg('cumsum', [(m, ab)], {'axis': 1, 'reverse': False}, key=f'const {cst} 1', tags=['const:' + cst]))
        C.append(Cfg('reduce_sum', [(m, ab, dict(CX, tag='complex'))], {'axes': (0,)}, key='C'))
        C.append(Cfg('reduce_prod', [(m, ab, dict(CX, tag='complex'))], {'axes': (1,)}, key='C'))
        for ax in (0, 1, 2):
            C.append(Cfg('cumsum', [(m, abc)], {'axis': ax, 'reverse': ax == 1}, key=f'3 {ax}'))
        C.append(Cfg('cumsum', [(m, ['a'])], {'axis': 0, 'reverse': False}, key='1'))
        C.append(Cfg('cumsum', [(m, ab, dict(CX, tag='complex'))], {'axis': 1, 'reverse': False}, key='C'))
        C.append(Cfg('broadcast_in_dim', [(m, ['a'])], lambda W: {'shape': (W.n('y'), W.n('a'), W.n('z')), 'broadcast_dimensions': (1,)}, key='both'))
        C.append(Cfg('broadcast_in_dim', [(m, ['a'])], lambda W: {'shape': (W.n('a'), W.n('z')), 'broadcast_dimensions': (0,)}, key='tail'))
        C.append(Cfg('broadcast_in_dim', [(m, ['a'])], lambda W: {'shape': (W.n('a'), 1), 'broadcast_dimensions': (0,)}, key='unit'))
        C.append(Cfg('broadcast_in_dim', [(m, ab)], lambda W: {'shape': (1, W.n('a'), 1, W.n('b')), 'broadcast_dimensions': (1, 3)}, key='units'))
        C.append(Cfg('broadcast_in_dim', [(m, [1, 'b'])], lambda W: {'shape': (W.n('a'), W.n('b')), 'broadcast_dimensions': (0, 1)}, key='first'))
        C.append(Cfg('broadcast_in_dim', [(m, [1, 1])], lambda W: {'shape': (W.n('a'), W.n('b')), 'broadcast_dimensions': (0, 1)}, key='ones'))
        C.append(Cfg('broadcast_in_dim', [(m, [])], lambda W: {'shape': (), 'broadcast_dimensions': ()}, key='nothing'))
        C.append(Cfg('reshape', [(m, abc)], lambda W: {'new_sizes': (W.n('a') * W.n('b'), W.n('c')), 'dimensions': None}, key='head'))
        C.append(Cfg('reshape', [(m, ['a', 1, 'b'])], lambda W: {'new_sizes': (W.n('a'), W.n('b')), 'dimensions': None}, key='drop'))
        C.append(Cfg('reshape', [(m, [])], lambda W: {'new_sizes': (1, 1), 'dimensions': None}, key='scalar'))
        C.append(Cfg('reshape', [(m, [1])], lambda W: {'new_sizes': (), 'dimensions': None}, key='to scalar'))
        C.append(Cfg('slice', [(m, ab)], lambda W: {'start_indices': (0, 1), 'limit_indices': (2, W.n('b')), 'strides': None}, key='second'))
        C.append(Cfg('squeeze', [(m, [1, 'a', 1])], {'dimensions': (0, 2)}, key='two'))
        C.append(Cfg('squeeze', [(m, [1])], {'dimensions': (0,)}, key='all'))
        for per in ((0, 2, 1), (1, 0, 2), (2, 0, 1)):
            C.append(Cfg('transpose', [(m, abc)], {'permutation': per}, key=str(per)))
        C.append(Cfg('transpose', [(m, ab)], {'permutation': (1, 0)}, key='2'))
        C.append(Cfg('rev', [(m, ['a'])], {'dimensions': (0,)}, key='1'))
        C.append(Cfg('rev', [(m, abc)], {'dimensions': (0, 2)}, key='3'))
        C.append(Cfg('convert_element_type', [(m, ab)], lambda W: {'new_dtype': Dt('i', 'u8'), 'weak_type': False}, key='u', need='plain'))
        C.append(Cfg('convert_element_type', [(m, ab, dict(CX, tag='complex'))], lambda W: {'new_dtype': Dt('c', 'q'), 'weak_type': False}, key='cc'))
        for src, dst in PRECISIONS:
            C.append(Cfg('convert_element_type', [(m, ab, {'dt': src, 'tag': str(src)})], lambda W, dst=dst: {'new_dtype': dst, 'weak_type': False}, key=str(dst), need='plain' if dst.kind in 'bi' else None))
            C.append(Cfg('convert_element_type', [(m, ab, {'dt': src, 'tag': 'weak ' + str(src)})], lambda W, dst=dst: {'new_dtype': dst, 'weak_type': True}, key=str(dst), need='plain' if dst.kind in 'bi' else None))
        V0, V1 = ('v', 0), ('v', 1)
        tr = ('c', [], {'dt': I32})
        C.append(Cfg('dynamic_slice', [(m, ab), V0, V1], lambda W: {'slice_sizes': (W.n('a'), 2)}, key='second'))
        C.append(Cfg('dynamic_slice', [(m, ab), V1, ('v', 2)], lambda W: {'slice_sizes': (1, 2)}, key='corner'))
        C.append(Cfg('dynamic_slice', [(m, ['a']), V1], lambda W: {'slice_sizes': (2,)}, key='1'))
        C.append(Cfg('dynamic_slice', [(m, abc), V0, V1, ('v', 2)], lambda W: {'slice_sizes': (W.n('a'), 2, 1)}, key='3'))
        C.append(Cfg('dynamic_slice', [(m, ab), V0, tr], lambda W: {'slice_sizes': (W.n('a'), 2)}, key='second traced'))
        C.append(Cfg('dynamic_slice', [(m, ab), ('n', [], {'np': I32}), ('n', [], {'np': I32})], lambda W: {'slice_sizes': (1, 2)}, key='numpy'))
        C.append(Cfg('dynamic_slice', [(m, ['a']), tr], lambda W: {'slice_sizes': (1,)}, key='1 traced'))
    for m in ('ss', 'sd', 'dd', 'sc', 'cs', 'dc', 'cd'):
        C.append(Cfg('concatenate', [(m[0], ['x', 'a', 'y']), (m[1], ['x', 'b', 'y'])], {'dimension': 1}, key='middle'))
        C.append(Cfg('concatenate', [(m[0], [1]), (m[1], [1])], {'dimension': 0}, key='entries'))
        C.append(Cfg('concatenate', [(m[0], ['a', 1]), (m[1], ['a', 1])], {'dimension': 1}, key='columns'))
        C.append(Cfg('select_n', [('c', [], {'dt': B_})] + [(x, ab) for x in m], {}, key='scalar'))
        C.append(Cfg('select_n', [('n', ab, {'np': B_})] + [(x, ab) for x in m], {}, key='numpy'))
        C.append(Cfg('select_n', [('c', ['a'], {'dt': B_})] + [(x, ['a']) for x in m], {}, key='1'))
    for m in ('ss', 'sd', 'ds', 'sc'):
        for p in ('mul', 'add', 'div', 'atan2'):
            C.append(Cfg(p, [(x, ['a', 'b', 'c', 'd']) for x in m], {}, key='4'))
        for p in (':logaddexp',):
            C.append(Cfg(p, [(m[0], ['a', 1]), (m[1], ['a', 'b'])], {}, key='broadcast'))
            C.append(Cfg(p, [(m[0], ['b']), (m[1], ['a', 'b'])], {}, key='rank'))
            C.append(Cfg(p, [(m[0], ['a', 1]), (m[1], [1, 'b'])], {}, key='both'))
            C.append(Cfg(p, [(m[0], []), (m[1], ['a', 'b'])], {}, key='scalar'))
    for m in ('sss', 'ssd', 'csd', 'scs', 'dcd'):
        C.append(Cfg('concatenate', [(m[0], ['a', 'z']), (m[1], ['b', 'z']), (m[2], ['c', 'z'])], {'dimension': 0}, key='three'))
        C.append(Cfg('select_n', [('c', ab, {'dt': I32})] + [(x, ab) for x in m], {}, key='three'))
    C.append(Cfg('concatenate', [('s', ab)], {'dimension': 0}, key='single'))
    C.append(Cfg('concatenate', [('d', ab)], {'dimension': 0}, key='single'))
    for m in ('ss', 'sd', 'dd', 'cs', 'dc'):
        C.append(Cfg('concatenate', [(m[0], ['a'], dict(CX)), (m[1], ['b'], dict(CX))], {'dimension': 0}, key='C'))
    same = {'mask': 'mJ0', 'tag': 'same', 'kname': 'kJ0'}
    for key, l, r, dn in MORE_DOTS:
        for m in ('ss', 'sd', 'dd', 'sc', 'cd'):
            C.append(Cfg('dot_general', [(m[0], l), (m[1], r)], dot_params(dn), key=key, tags=['dot']))
    for key, l, r, dn in list(DOTS) + list(MORE_DOTS):
        for cst in sorted({x for x in l + r if isinstance(x, str)}):
            C.append(Cfg('dot_general', [('s', l), ('s', r)], dot_params(dn), key=f'{key} const {cst}', tags=['dot', 'const:' + cst]))
            if cst in l:
                C.append(Cfg('dot_general', [('s', l), ('c', r)], dot_params(dn), key=f'{key} const {cst}', tags=['dot', 'const:' + cst]))
    for cst in ('a', 'b', 'ab'):
        for o in ('s', 'sc', 'cs'):
            C.append(Cfg('opaque_op', [(m, ab) for m in o], {}, key=f'const {cst}', tags=['generic'] + ['const:' + x for x in cst]))
    for key, l, r, dn in (DOTS[0], DOTS[3], DOTS[7]):
        C.append(Cfg('dot_general', [('s', l, dict(CX)), ('d', r, dict(CX))], dot_params(dn), key=key + ' C', tags=['dot']))
        C.append(Cfg('dot_general', [('s', l, dict(CX)), ('s', r, dict(CX))], dot_params(dn), key=key + ' C', tags=['dot']))
        C.append(Cfg('dot_general', [('d', l, dict(CX)), ('c', r, dict(CX))], dot_params(dn), key=key + ' C', tags=['dot']))
    C.append(Cfg('dot_general', [('s', ['k'], dict(same)), ('s', ['k'], dict(same))], dot_params(DOTS[0][3]), key='vv', tags=['dot']))
    for m in ('ddd', 'scs', 'dcd', 'csc'):
        C.append(Cfg('opaque_op', [(m[0], ab), (m[1], ['c']), (m[2], ['d'])], {}, key='three', tags=['generic']))
    for m in ('ss', 'sd', 'dd', 'dc', 'cs'):
        C.append(Cfg('opaque_op', [(m[0], ab), (m[1], ab)], {}, key='equal', tags=['generic']))
        C.append(Cfg('opaque_op', [(m[0], []), (m[1], ['c'])], {}, key='scalar', tags=['generic']))
    C.append(Cfg('opaque_op', [('s', abc)], {}, key='3', tags=['generic']))
    C.append(Cfg('opaque_op', [('d', [])], {}, key='0', tags=['generic']))


def gather_params(sh):
    def f(W):
        W.m.gather_shape = tuple(W.n(x) for x in sh)
        return {'dimension_numbers': ModelV('dnums', 'g'), 'slice_sizes': (1,), 'mode': None}
    return f


def dot_params(dn):
    return {'dimension_numbers': dn, 'precision': None, 'preferred_element_type': None}


# name, lhs axes, rhs axes, ((contract), (batch))
DOTS = [
    ('vv', ['k'], ['k'], (((0,), (0,)), ((), ()))),
    ('mv', ['a', 'k'], ['k'], (((1,), (0,)), ((), ()))),
    ('vm', ['k'], ['k', 'b'], (((0,), (0,)), ((), ()))),
    ('mm', ['a', 'k'], ['k', 'b'], (((1,), (0,)), ((), ()))),
    ('mtm', ['k', 'a'], ['k', 'b'], (((0,), (0,)), ((), ()))),
    ('bmm', ['z', 'a', 'k'], ['z', 'k', 'b'], (((2,), (1,)), ((0,), (0,)))),
    ('bmmT', ['a', 'z', 'k'], ['b', 'k', 'z'], (((2,), (1,)), ((1,), (2,)))),
    ('bv', ['z', 'k'], ['z', 'k'], (((1,), (1,)), ((0,), (0,)))),
    ('bvT', ['k', 'z'], ['z', 'k'], (((0,), (1,)), ((1,), (0,)))),
    ('2b', ['y', 'z', 'k'], ['z', 'y', 'k'], (((2,), (2,)), ((0, 1), (1, 0)))),
    ('2b2', ['y', 'z', 'k'], ['y', 'z', 'k'], (((2,), (2,)), ((1, 0), (1, 0)))),
    ('2k', ['k', 'l'], ['k', 'l'], (((0, 1), (0, 1)), ((), ()))),
    ('2kT', ['k', 'l'], ['l', 'k'], (((0, 1), (1, 0)), ((), ()))),
    ('2km', ['a', 'k', 'l'], ['l', 'k'], (((2, 1), (0, 1)), ((), ()))),
    ('outer', ['a'], ['b'], (((), ()), ((), ()))),
    ('scal', [], ['b'], (((), ()), ((), ()))),
    ('bcast', ['z', 'a'], ['z', 'b'], (((), ()), ((0,), (0,)))),
    ('had', ['z'], ['z'], (((), ()), ((0,), (0,)))),
    ('vm2', ['k'], ['b', 'k', 'c'], (((0,), (1,)), ((), ()))),
    ('mv2', ['a', 'k', 'c'], ['k'], (((1,), (0,)), ((), ()))),
    ('zmv', ['z', 'a', 'k'], ['z', 'k'], (((2,), (1,)), ((0,), (0,)))),
    ('azv', ['a', 'z', 'k'], ['z', 'k'], (((2,), (1,)), ((1,), (0,)))),
    ('vzb', ['z', 'k'], ['b', 'z', 'k'], (((1,), (2,)), ((0,), (1,)))),
]


F16, BF16, F32, F64, C64, C128 = Dt('f', '16'), Dt('f', 'b16'), Dt('f', '32'), Dt('f', '64'), Dt('c', '32'), Dt('c', '64')
PRECISIONS = [(a, b) for a in (F16, BF16, F32, F64) for b in (F16, BF16, F32, F64, C64, C128) if a != b] + [(C64, C128), (C128, C64)] + \
    [(a, Dt(k, n)) for a in (F32, BF16) for k, n in (('i', '8'), ('i', '32'), ('i', '64'), ('i', 'u8'), ('i', 'u32'), ('b', 'b'))]


MORE_DOTS = [
    ('mk1', ['a', 1], [1, 'b'], (((1,), (0,)), ((), ()))),
    ('row', [1, 'k'], ['k', 'b'], (((1,), (0,)), ((), ()))),
    ('col', ['a', 'k'], ['k', 1], (((1,), (0,)), ((), ()))),
    ('row1', [1, 'k'], ['k', 1], (((1,), (0,)), ((), ()))),
    ('mmT', ['a', 'k'], ['b', 'k'], (((1,), (1,)), ((), ()))),
    ('tail2', ['a', 'k', 'l'], ['k', 'l', 'b'], (((1, 2), (0, 1)), ((), ()))),
    ('z1', [1, 'a', 'k'], [1, 'k', 'b'], (((2,), (1,)), ((0,), (0,)))),
    ('4', ['z', 'a', 'b', 'k'], ['z', 'k', 'c'], (((3,), (1,)), ((0,), (0,)))),
    ('3c', ['k', 'l', 'm'], ['m', 'k', 'l'], (((0, 1, 2), (1, 2, 0)), ((), ()))),
    ('batch last', ['a', 'k', 'z'], ['b', 'k', 'z'], (((1,), (1,)), ((2,), (2,)))),
]
C_ = Dt('c', 'p')
B_ = Dt('b', 'b')
