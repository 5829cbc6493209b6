"""Models of numpy module functions."""
import math
import numpy as np
from .aig import FALSE, TRUE
from . import vals as V
from .vals import (st, Unsupported, UNBOUND, PRIM, SB, U, mku, alts, LP, Q, cmp_lit, eq, truth, ite, mkb,
                   SList, SRange, NDArr, num_op, tolp, Fraction)
from .mseq import perr
from . import mnp

LISTM = []


def npm(*fs, always=False):
    """register a model; concrete arguments run the real numpy function"""
    def d(h):
        def wrapped(ip, a, k):
            if not always and all(ip.conc(x) for x in a) and all(ip.conc(x) for x in k.values()):
                from .models import native_once
                return native_once(ip, wrapped.f, a, k)
            a = tuple(mnp.merge_nd(x) for x in a)
            return h(ip, *a, **k)
        for f in fs:
            import functools

            def mk(f):
                def w(ip, a, k):
                    if not always and all(ip.conc(x) for x in a) and all(ip.conc(x) for x in k.values()):
                        from .models import native_once
                        return native_once(ip, f, a, k)
                    a = tuple(mnp.merge_nd(x) for x in a)
                    return h(ip, *a, **k)
                return w
            LISTM.append((f, mk(f)))
        return h
    return d


def np_models():
    return LISTM


def nd(ip, x, copy=False):
    return mnp.to_nd(ip, x, copy=copy)


def mapped(ip, x, f):
    """apply f to an array argument that may be a union of sequences"""
    if isinstance(x, U) and not all(isinstance(y, PRIM) for _, y in x.alts):
        return ip.map_alts(x, f)
    return f(x)


@npm(np.array, always=True)
def n_array(ip, x, dtype=None, copy=True, ndmin=0, **k):
    r = mapped(ip, x, lambda y: mnp.to_nd(ip, y, dtype))
    return r


@npm(np.asarray, always=True)
def n_asarray(ip, x, dtype=None, **k):
    return mapped(ip, x, lambda y: mnp.to_nd(ip, y, dtype, copy=False))


def shp(ip, s):
    if isinstance(s, SList):
        s = tuple(s.definite())
    if isinstance(s, (int, U, LP)):
        s = (s,)
    return s


def filled(ip, shape, v, dtype):
    s = shp(ip, shape)
    for i, x in enumerate(s):
        if isinstance(x, LP):
            x = V.lp_to_u(x)
        if isinstance(x, (U, SB)):
            return ip.map_alts(x, lambda y: filled(ip, s[:i] + (y,) + s[i + 1:], v, dtype))
    dt = mnp.dtname(dtype) or 'float'
    try:
        a = np.empty(s, dtype=object)
    except Exception as e:
        raise perr(e)
    val = mnp.conv_el(v, dt)
    for ix in np.ndindex(*a.shape):
        a[ix] = val
    return NDArr(a, dt)


@npm(np.zeros, np.empty, always=True)
def n_zeros(ip, shape, dtype=None, **k):
    return filled(ip, shape, 0, dtype)


@npm(np.ones, always=True)
def n_ones(ip, shape, dtype=None, **k):
    return filled(ip, shape, 1, dtype)


@npm(np.full, always=True)
def n_full(ip, shape, v, dtype=None, **k):
    return filled(ip, shape, v, dtype or mnp.val_dt(v))


@npm(np.zeros_like, always=True)
def n_zl(ip, x, dtype=None):
    x = nd(ip, x)
    return filled(ip, x.a.shape, 0, dtype or x.dt)


@npm(np.ones_like, always=True)
def n_ol(ip, x, dtype=None):
    x = nd(ip, x)
    return filled(ip, x.a.shape, 1, dtype or x.dt)


@npm(np.eye, np.identity)
def n_eye(ip, n, *a, **k):
    return ip.map_alts(n, lambda y: ip.from_native(np.eye(y, *a, **k), {}))


@npm(np.matmul)
def n_matmul(ip, a, b):
    return mnp.matmul(ip, a, b)


@npm(np.dot)
def n_dot(ip, a, b):
    return mnp.dot(ip, a, b)


@npm(np.vdot, np.inner)
def n_vdot(ip, a, b):
    return mnp.dot(ip, NDArr(nd(ip, a).a.reshape(-1), nd(ip, a).dt), NDArr(nd(ip, b).a.reshape(-1), nd(ip, b).dt))


@npm(np.outer)
def n_outer(ip, a, b):
    a, b = nd(ip, a), nd(ip, b)
    return mnp.elementwise(ip, mnp.mul, NDArr(a.a.reshape(-1, 1), a.dt), NDArr(b.a.reshape(1, -1), b.dt))


@npm(np.trace)
def n_trace(ip, a):
    return mnp.NDM['trace'](ip, nd(ip, a))


def structural(f, nd_args=1, seq=False):
    def h(ip, *a, **k):
        if seq:
            items = a[0] if isinstance(a[0], tuple) else [s[1] for s in ip.iter_slots(a[0])]
            xs = [nd(ip, mnp.merge_nd(x)) for x in items]
            try:
                r = f([x.a for x in xs], *a[1:], **k)
            except (ValueError, IndexError, TypeError) as e:
                raise perr(e)
            dt = mnp.join_dt(x.dt for x in xs)
        else:
            xs = [nd(ip, x) for x in a[:nd_args]]
            try:
                r = f(*[x.a for x in xs], *a[nd_args:], **k)
            except (ValueError, IndexError, TypeError) as e:
                raise perr(e)
            dt = mnp.join_dt(x.dt for x in xs)
        r = np.array(r, dtype=object, copy=True) if not isinstance(r, np.ndarray) else r.copy()
        out = NDArr(r, dt)
        if dt == 'float':
            mnp.tofloat(out)
        return out
    return h


for _f, _n, _s in ((np.concatenate, 1, True), (np.hstack, 1, True), (np.vstack, 1, True), (np.stack, 1, True),
                   (np.column_stack, 1, True), (np.append, 2, False), (np.copy, 1, False),
                   (np.triu, 1, False), (np.tril, 1, False), (np.tile, 1, False), (np.repeat, 1, False),
                   (np.flip, 1, False), (np.roll, 1, False), (np.delete, 1, False), (np.expand_dims, 1, False),
                   (np.atleast_1d, 1, False), (np.rot90, 1, False), (np.flipud, 1, False), (np.fliplr, 1, False),
                   (np.swapaxes, 1, False), (np.moveaxis, 1, False), (np.take, 1, False), (np.atleast_2d, 1, False), (np.squeeze, 1, False)):
    npm(_f)(structural(_f, _n, _s))


@npm(np.transpose, always=True)
def n_transpose(ip, a, axes=None):
    a = nd(ip, a)
    return NDArr(a.a.transpose(axes) if axes is not None else a.a.T, a.dt, a.pc)


@npm(np.reshape, always=True)
def n_reshape(ip, a, s, **k):
    return mnp._reshape(ip, nd(ip, a), shp(ip, s))


@npm(np.ravel, always=True)
def n_ravel(ip, a):
    a = nd(ip, a)
    return NDArr(a.a.ravel(), a.dt, a.pc)


@npm(np.diag)
def n_diag(ip, a, k=0):
    a = nd(ip, a)
    if a.a.ndim == 2:
        return NDArr(np.diagonal(a.a, k).copy(), a.dt)
    n = a.a.shape[0] + abs(k)
    r = filled(ip, (n, n), 0, a.dt)
    for i, v in enumerate(a.a):
        r.a[(i, i + k) if k >= 0 else (i - k, i)] = v
    return r


@npm(np.conj, np.conjugate, always=True)
def n_conj(ip, a):
    if mnp.scalar(a):
        return a.conjugate() if isinstance(a, complex) else a
    return mnp._conj(ip, nd(ip, a))


@npm(np.real)
def n_real(ip, a):
    return a


@npm(np.kron)
def n_kron(ip, a, b):
    a, b = nd(ip, a), nd(ip, b)
    if a.a.ndim != 2 or b.a.ndim != 2:
        raise Unsupported('kron of vectors')
    p, q = a.a.shape
    r, s = b.a.shape
    out = np.empty((p * r, q * s), dtype=object)
    for i, j, k, l in np.ndindex(p, q, r, s):
        out[i * r + k, j * s + l] = mnp.mul(a.a[i, j], b.a[k, l])
    return NDArr(out, mnp.join_dt([a.dt, b.dt]))


@npm(np.sum)
def n_sum(ip, a, axis=None, keepdims=False):
    return mnp._sum(ip, nd(ip, a), axis, keepdims)


@npm(np.mean)
def n_mean(ip, a, axis=None):
    return mnp._mean(ip, nd(ip, a), axis)


@npm(np.prod)
def n_prod(ip, a, axis=None):
    return mnp.NDM['prod'](ip, nd(ip, a), axis)


for _names, _m in (((np.max, np.amax), 'max'), ((np.min, np.amin), 'min'), ((np.argmax,), 'argmax'),
                   ((np.argmin,), 'argmin'), ((np.any,), 'any'), ((np.all,), 'all'), ((np.cumsum,), 'cumsum'),
                   ((np.argsort,), 'argsort')):
    def _mk(m):
        def h(ip, a, *r, **k):
            return mnp.NDM[m](ip, nd(ip, a), *r, **k)
        return h
    npm(*dict.fromkeys(_names))(_mk(_m))


@npm(np.sort)
def n_sort(ip, a, axis=-1, **k):
    r = nd(ip, a, copy=True)
    mnp._nd_sort(ip, r, axis)
    return r


def unary(f):
    def h(ip, a, **k):
        if mnp.scalar(a):
            return f(ip, a)
        return mnp.elementwise(ip, lambda v: f(ip, v), nd(ip, a))
    return h


def _abs(ip, v):
    from .mbuiltin import m_abs
    return m_abs(ip, (v,), {})


npm(np.abs, np.absolute, np.fabs)(unary(_abs))
npm(np.sqrt)(unary(lambda ip, v: V.sqrt(v)))
npm(np.square)(unary(lambda ip, v: mnp.mul(v, v)))
npm(np.negative)(unary(lambda ip, v: num_op('-', 0, v)))
npm(np.sign)(unary(lambda ip, v: ite(cmp_lit('<', v, 0), -1, ite(eq(v, 0), 0, 1))))
npm(np.isnan, np.isinf)(unary(lambda ip, v: isinstance(v, float) and v != v))
npm(np.isfinite)(unary(lambda ip, v: True))
npm(np.logical_not)(unary(lambda ip, v: mkb(truth(v) ^ 1)))


@npm(np.around, np.round)
def n_around(ip, a, decimals=0):
    from .mbuiltin import m_round
    if mnp.scalar(a):
        return m_round(ip, (a, decimals), {})
    return mnp._round(ip, nd(ip, a), decimals)


for _f, _op in ((np.add, '+'), (np.subtract, '-'), (np.multiply, '*'), (np.divide, '/'), (np.power, '**'),
                (np.floor_divide, '//'), (np.mod, '%')):
    def _mk2(op):
        def h(ip, a, b):
            if mnp.scalar(a) and mnp.scalar(b):
                return ip.binop(op, a, b)
            return mnp.nd_binop(ip, op, a if mnp.scalar(a) else nd(ip, a), b if mnp.scalar(b) else nd(ip, b))
        return h
    npm(_f)(_mk2(_op))


def _bin(f):
    def h(ip, a, b):
        x = a if mnp.scalar(a) else nd(ip, a)
        y = b if mnp.scalar(b) else nd(ip, b)
        return mnp.elementwise(ip, f, x, y)
    return h


npm(np.maximum)(_bin(lambda x, y: ite(cmp_lit('<', x, y), y, x)))
npm(np.minimum)(_bin(lambda x, y: ite(cmp_lit('<', y, x), y, x)))
npm(np.logical_and)(_bin(lambda x, y: mkb(st.aig.AND(truth(x), truth(y)))))
npm(np.logical_or)(_bin(lambda x, y: mkb(st.aig.OR(truth(x), truth(y)))))
npm(np.equal)(_bin(lambda x, y: mkb(eq(x, y))))
npm(np.not_equal)(_bin(lambda x, y: mkb(eq(x, y) ^ 1)))
npm(np.less)(_bin(lambda x, y: mkb(cmp_lit('<', x, y))))
npm(np.greater)(_bin(lambda x, y: mkb(cmp_lit('>', x, y))))


@npm(np.where)
def n_where(ip, c, *ab):
    if not ab:
        return n_nonzero(ip, c)
    x = [v if mnp.scalar(v) else nd(ip, v) for v in (c,) + ab]
    return mnp.elementwise(ip, lambda g, a, b: ite(truth(g), a, b), *x)


def close(ip, rtol, atol):
    def f(x, y):
        d = _abs(ip, num_op('-', x, y))
        b = num_op('+', atol, num_op('*', rtol, _abs(ip, y)))
        return mkb(cmp_lit('<=', d, b))
    return f


@npm(np.isclose)
def n_isclose(ip, a, b, rtol=1e-05, atol=1e-08):
    x = a if mnp.scalar(a) else nd(ip, a)
    y = b if mnp.scalar(b) else nd(ip, b)
    return mnp.elementwise(ip, close(ip, rtol, atol), x, y)


@npm(np.allclose)
def n_allclose(ip, a, b, rtol=1e-05, atol=1e-08):
    r = n_isclose(ip, a, b, rtol, atol)
    return r if not isinstance(r, NDArr) else mkb(ip.aig.ANDS(truth(v) for v in r.a.reshape(-1)))


@npm(np.array_equal)
def n_aeq(ip, a, b):
    a, b = nd(ip, a), nd(ip, b)
    if a.a.shape != b.a.shape:
        return False
    return mkb(ip.aig.ANDS(eq(x, y) for x, y in zip(a.a.reshape(-1), b.a.reshape(-1))))


@npm(np.count_nonzero)
def n_cnz(ip, a):
    return V.count_u([truth(v) for v in nd(ip, a).a.reshape(-1)])


@npm(np.linalg.norm)
def n_norm(ip, a, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2) and not (ord == 'fro'):
        raise Unsupported('norm order')
    a = nd(ip, a)
    if ord == 2 and a.a.ndim == 2 and axis is None:
        raise Unsupported('spectral norm')
    return mnp.axis_apply(ip, a, axis, lambda xs: V.sqrt(mnp.acc_sum([mnp.mul(x, x) for x in xs])))


@npm(np.arange)
def n_arange(ip, *a, **k):
    out = None
    if len(a) == 1:
        return ip.map_alts(a[0], lambda n: ip.from_native(np.arange(n, **k), {}))
    raise Unsupported('arange with symbolic bounds')


@npm(np.roots)
def n_roots(ip, p):
    p = list(nd(ip, p).a)
    while p and mnp.iszero(p[0]):
        p = p[1:]
    if len(p) == 2:
        a = np.empty(1, dtype=object)
        a[0] = ip.binop('/', num_op('-', 0, p[1]), p[0])
        return NDArr(a, 'float')
    if len(p) != 3:
        raise Unsupported('roots of degree other than 2')
    a, b, c = p
    disc = num_op('-', mnp.mul(b, b), num_op('*', 4, mnp.mul(a, c)))
    ip.raise_guarded(cmp_lit('<', disc, 0), ArithmeticError('complex roots (model)'))
    s = V.sqrt(disc)
    A = ip.aig
    o = A.var('~roots_order%d' % len(A.names), A.rng.getrandbits(A.K))
    r1 = V.div(num_op('+', num_op('-', 0, b), s), num_op('*', 2, a))
    r2 = V.div(num_op('-', num_op('-', 0, b), s), num_op('*', 2, a))
    out = np.empty(2, dtype=object)
    out[0] = ite(o, r1, r2)
    out[1] = ite(o, r2, r1)
    return NDArr(out, 'float')


@npm(np.fill_diagonal, always=True)
def n_fd(ip, a, v):
    for i in range(min(a.a.shape)):
        mnp.nd_setitem(ip, a, (i, i), v if mnp.scalar(v) else nd(ip, v).a.reshape(-1)[i % nd(ip, v).a.size])


@npm(np.isin)
def n_isin(ip, a, b, **k):
    A = ip.aig
    ys = [(s[0], s[1]) for s in (ip.iter_slots(b) if not isinstance(b, NDArr) else [(TRUE, y) for y in b.a.reshape(-1)])]
    r = mnp.elementwise(ip, lambda x: mkb(A.ORS(A.AND(g, eq(x, y)) for g, y in ys)), nd(ip, a))
    return mnp.elementwise(ip, lambda x: mkb(truth(x) ^ 1), r) if k.get('invert') else r


@npm(np.flatnonzero)
def n_flatnonzero(ip, a):
    x = nd(ip, a).a.reshape(-1)
    return SList([(g, i) for g, i in ((truth(v), i) for i, v in enumerate(x)) if g != FALSE])


@npm(np.nonzero)
def n_nonzero(ip, a):
    x = nd(ip, a).a
    if x.ndim == 1:
        return (_flat(ip, a),)
    at = [(truth(x[i]), i) for i in np.ndindex(*x.shape)]
    return tuple(SList([(g, i[k]) for g, i in at if g != FALSE]) for k in range(x.ndim))


@npm(np.argwhere)
def n_argwhere(ip, a):
    x = nd(ip, a).a
    at = [(truth(x[i]), i) for i in np.ndindex(*x.shape)]
    return SList([(g, SList([(TRUE, k) for k in i])) for g, i in at if g != FALSE])


def _flat(ip, a):
    x = nd(ip, a).a.reshape(-1)
    return SList([(g, i) for g, i in ((truth(v), i) for i, v in enumerate(x)) if g != FALSE])


@npm(np.clip)
def n_clip(ip, a, lo, hi):
    def one(v):
        v = v if lo is None else ite(cmp_lit('<', v, lo), lo, v)
        return v if hi is None else ite(cmp_lit('<', hi, v), hi, v)
    return one(a) if mnp.scalar(a) else mnp.elementwise(ip, one, nd(ip, a))


@npm(np.diff)
def n_diff(ip, a):
    x = list(nd(ip, a).a)
    return nd(ip, SList([(TRUE, num_op('-', v, u)) for u, v in zip(x, x[1:])]))


@npm(np.ndim, always=True)
def n_ndim(ip, a):
    return nd(ip, a).a.ndim


@npm(np.shape, always=True)
def n_shape(ip, a):
    return tuple(nd(ip, a).a.shape)
