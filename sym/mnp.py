"""Models of numpy arrays (object storage)."""
import itertools
import math
import numpy as np
from .aig import FALSE, TRUE
from . import vals as V
from .vals import (st, lp_index, PC, rel, Unsupported, UNBOUND, PRIM, SB, U, mku, alts, feasible_alts, LP, Q,
                   cmp_lit, eq, truth, ite, mkb, SList, SRange, SSet, SDict, SObj, NDArr, SIter,
                   count_u, lp_to_u, num_op, tolp, Fraction, isbool)
from .mseq import perr, View, to_slist, compact, sorted_slots
import ast

DTS = {int: 'int', float: 'float', bool: 'bool', complex: 'complex', object: 'object',
       'int': 'int', 'float': 'float', 'bool': 'bool', 'object': 'object', 'd': 'float', 'f': 'float',
       'float64': 'float', 'int64': 'int', 'i': 'int', 'float32': 'float', 'int32': 'int'}


def dtname(dt):
    if dt is None:
        return None
    if isinstance(dt, str) and dt in DTS:
        return DTS[dt]
    if isinstance(dt, type) and dt in DTS:
        return DTS[dt]
    try:
        k = np.dtype(dt).kind
    except TypeError:
        raise Unsupported('dtype %r' % (dt,))
    return {'f': 'float', 'i': 'int', 'u': 'int', 'b': 'bool', 'c': 'complex', 'O': 'object'}.get(k) or 'object'


def simp(v):
    if isinstance(v, LP) and v.isconst():
        c = v.const()
        return int(c) if c.denominator == 1 else c
    return v


def val_dt(v):
    if isinstance(v, (bool, SB)):
        return 'bool'
    if isinstance(v, int):
        return 'int'
    if isinstance(v, U):
        ks = {val_dt(x) for _, x in v.alts if x is not UNBOUND}
        return join_dt(ks)
    if isinstance(v, complex):
        return 'complex'
    if isinstance(v, (float, Fraction, LP, Q)):
        return 'float'
    return 'object'


ORDER = ['bool', 'int', 'float', 'complex', 'object']


def join_dt(ks):
    ks = list(ks)
    if not ks:
        return 'float'
    return ORDER[max(ORDER.index(k) for k in ks)]


def merge_nd(v):
    """union of arrays of one shape -> array (reading only)"""
    if isinstance(v, U) and all(isinstance(x, NDArr) for _, x in v.alts) \
            and len({x.a.shape for _, x in v.alts}) == 1:
        r = np.empty(v.alts[0][1].a.shape, dtype=object)
        for ix in np.ndindex(*r.shape):
            acc = v.alts[-1][1].a[ix]
            for g, x in v.alts[:-1]:
                acc = ite(g, x.a[ix], acc)
            r[ix] = acc
        return NDArr(r, join_dt(x.dt for _, x in v.alts))
    return v


def shape_of(ip, x):
    if isinstance(x, NDArr):
        return x.a.shape
    if isinstance(x, tuple):
        items = x
    elif isinstance(x, SList):
        items = x.definite()
        if items is None:
            raise Unsupported('array from a list of symbolic length')
    elif isinstance(x, (SRange, View, SIter)):
        items = [s[1] for s in ip.iter_slots(x)]
    else:
        return ()
    if not items:
        return (0,)
    s = [shape_of(ip, y) for y in items]
    if len(set(s)) != 1:
        raise perr(ValueError('setting an array element with a sequence. The requested array has an '
                              'inhomogeneous shape'))
    return (len(items),) + s[0]


def to_nd(ip, x, dt=None, copy=True):
    if isinstance(x, U):
        y = merge_nd(x)
        if isinstance(y, NDArr):
            x = y
        elif all(isinstance(z, (SList, tuple)) for _, z in x.alts):
            return ip.map_alts(x, lambda z: to_nd(ip, z, dt, copy))
    if isinstance(x, NDArr):
        r = NDArr(x.a.copy(), x.dt) if copy else x
    elif isinstance(x, SpMat):
        raise Unsupported('array of a sparse matrix')
    else:
        if isinstance(x, (SSet, SDict)):
            raise Unsupported('array of a set')
        if isinstance(x, SIter) or (not isinstance(x, (SList, tuple, SRange)) and not scalar(x)):
            raise Unsupported('array of %s' % type(x))
        shp = shape_of(ip, x)
        a = np.empty(shp, dtype=object)

        def fill(pre, y):
            if isinstance(y, NDArr):
                for ix in np.ndindex(*y.a.shape):
                    a[pre + ix] = y.a[ix]
            elif len(pre) == len(shp):
                a[pre] = y
            else:
                it = y if isinstance(y, tuple) else y.definite() if isinstance(y, SList) else \
                    [s[1] for s in ip.iter_slots(y)]
                for k, z in enumerate(it):
                    fill(pre + (k,), z)
        fill((), x)
        r = NDArr(a, join_dt({val_dt(v) for v in a.reshape(-1)}) if a.size else 'float')
        if r.dt == 'float':
            tofloat(r)
    if dt is not None and dtname(dt) != r.dt:
        r = astype(ip, r, dtname(dt))
    return r


def tofloat(r):
    for ix in np.ndindex(*r.a.shape):
        v = r.a[ix]
        if isinstance(v, int):
            r.a[ix] = float(v)


def scalar(x):
    return isinstance(x, (LP, Q, SB) + PRIM) or \
        (isinstance(x, U) and all(isinstance(y, PRIM) for _, y in x.alts))


def conv_el(v, dt):
    """store v into an array of logical dtype dt"""
    if dt in ('object', 'complex'):
        return v
    if dt == 'float':
        if isinstance(v, complex):
            raise perr(TypeError('cannot cast complex to float'))
        if isinstance(v, str):
            raise perr(ValueError('could not convert string to float'))
        if v is None:
            return float('nan')
        if isinstance(v, (bool, int)):
            return float(v)
        if isinstance(v, SB):
            return mku([(v.l, 1.0), (v.l ^ 1, 0.0)])
        return v
    if dt == 'int':
        k = val_dt(v)
        if k == 'int':
            return v
        if k == 'bool':
            return int(v) if isinstance(v, bool) else mku([(v.l, 1), (v.l ^ 1, 0)])
        if isinstance(v, (float, Fraction)):
            return int(v)
        if isinstance(v, LP) and v.noreal():
            v = lp_to_u(v)
        if isinstance(v, U) and all(isinstance(x, (int, float, Fraction)) for _, x in v.alts):
            return mku([(g, int(x)) for g, x in v.alts])
        raise Unsupported('symbolic real stored in an integer array')
    if dt == 'bool':
        return mkb(truth(v))
    raise Unsupported(dt)


def astype(ip, r, dt):
    a = np.empty(r.a.shape, dtype=object)
    for ix in np.ndindex(*a.shape):
        a[ix] = conv_el(r.a[ix], dt)
    return NDArr(a, dt)


def nd_native(x):
    if x.dt == 'object':
        return x.a.copy()
    t = {'int': np.int64, 'float': np.float64, 'bool': np.bool_, 'complex': np.complex128}[x.dt]
    if x.a.size == 0:
        return np.zeros(x.a.shape, dtype=t)
    f = {'int': int, 'float': float, 'bool': bool, 'complex': complex}[x.dt]
    return np.array([f(v) for v in x.a.reshape(-1)], dtype=t).reshape(x.a.shape)


def elementwise(ip, f, *xs, dt=None):
    arrs = [x.a if isinstance(x, NDArr) else None for x in xs]
    boxed = []
    for x, a in zip(xs, arrs):
        if a is None:
            b = np.empty((), dtype=object)
            b[()] = x
            a = b
        boxed.append(a)
    try:
        bc = np.broadcast_arrays(*boxed)
    except ValueError as e:
        raise perr(e)
    shp = bc[0].shape
    out = np.empty(shp, dtype=object)
    for ix in np.ndindex(*shp):
        out[ix] = simp(f(*[b[ix] for b in bc]))
    if shp == () and not any(isinstance(x, NDArr) and x.a.shape == () for x in xs):
        return out[()]
    return NDArr(out, dt or (join_dt({val_dt(v) for v in out.reshape(-1)}) if out.size else 'float'))


def res_dt(op, ks):
    d = join_dt(ks)
    if op == '/':
        return 'float' if d in ('bool', 'int', 'float') else d
    if op in '+-*' and d == 'bool':
        return 'int'
    return d


def mul(a, b):
    if isinstance(a, PRIM) and isinstance(b, PRIM):
        return a * b
    return num_op('*', _num(a), _num(b))


def _num(v):
    if isinstance(v, (U, SB)):
        t = tolp(v)
        if t is None:
            raise Unsupported('array arithmetic on non-numbers')
        return t
    return v


def nd_binop(ip, op, a, b):
    a, b = merge_nd(a), merge_nd(b)
    if isinstance(a, SpMat) or isinstance(b, SpMat):
        return sp_binop(ip, op, a, b)
    for z in (a, b):
        if isinstance(z, SObj):
            raise Unsupported('array arithmetic with an object')
    if isinstance(a, (SList, tuple, SRange)):
        a = to_nd(ip, a)
    if isinstance(b, (SList, tuple, SRange)):
        b = to_nd(ip, b)
    if a is None or b is None:
        raise perr(TypeError('unsupported operand types'))
    if op == '@':
        return matmul(ip, a, b)

    def f(x, y):
        if op in ('&', '|', '^') and isbool(x) and isbool(y):
            return ip.binop(op, x, y)
        if op in ('+', '-', '*'):
            if isinstance(x, PRIM) and isinstance(y, PRIM):
                return num_op(op, x, y)
            return num_op(op, _num(x), _num(y))
        if op in ('/', '//', '%'):
            if isinstance(y, (int, float, Fraction)) and y == 0:
                raise Unsupported('numpy division by zero')
            if isinstance(y, (U, SB)) or isinstance(y, LP) and y.noreal():
                z = eq(y, 0)
                if z != FALSE and not ip.infeasible(ip.aig.AND(ip.pc.full, z)):
                    raise Unsupported('numpy division by a possibly zero value')
        return ip.binop(op, x, y)
    da = a.dt if isinstance(a, NDArr) else val_dt(a)
    db = b.dt if isinstance(b, NDArr) else val_dt(b)
    dt = res_dt(op, [da, db])
    r = elementwise(ip, f, a, b)
    if isinstance(r, NDArr):
        r.dt = dt if dt != 'object' else r.dt
        if r.dt == 'float':
            tofloat(r)
    return r


def nd_compare(ip, t, a, b):
    a, b = merge_nd(a), merge_nd(b)
    if isinstance(a, (SList, tuple)):
        a = to_nd(ip, a)
    if isinstance(b, (SList, tuple)):
        b = to_nd(ip, b)
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return t is ast.NotEq
    f = {ast.Eq: lambda x, y: mkb(eq(x, y)), ast.NotEq: lambda x, y: mkb(eq(x, y) ^ 1),
         ast.Lt: lambda x, y: mkb(cmp_lit('<', x, y)), ast.LtE: lambda x, y: mkb(cmp_lit('<=', x, y)),
         ast.Gt: lambda x, y: mkb(cmp_lit('>', x, y)), ast.GtE: lambda x, y: mkb(cmp_lit('>=', x, y))}[t]
    return elementwise(ip, f, a, b, dt='bool')


def acc_sum(items):
    """sum of products already formed"""
    if all(isinstance(v, PRIM) for v in items):
        s = 0
        for v in items:
            s = s + v
        return s
    t = LP({})
    q = None
    for v in items:
        if isinstance(v, Q):
            q = v if q is None else q + v
        else:
            x = tolp(v)
            if x is None:
                raise Unsupported('array sum of non-numbers')
            t = t + x
    if q is not None:
        return q + t if t.t else q
    return simp(t)


def matmul(ip, a, b):
    a, b = merge_nd(a), merge_nd(b)
    if isinstance(a, SpMat) or isinstance(b, SpMat):
        return sp_binop(ip, '@', a, b)
    a = to_nd(ip, a, copy=False)
    b = to_nd(ip, b, copy=False)
    x, y = a.a, b.a
    if x.ndim == 0 or y.ndim == 0:
        raise perr(ValueError('matmul: Input operand does not have enough dimensions'))
    if x.ndim > 2 or y.ndim > 2:
        raise Unsupported('matmul of more than two dimensions')
    x2 = x if x.ndim == 2 else x.reshape(1, -1)
    y2 = y if y.ndim == 2 else y.reshape(-1, 1)
    if x2.shape[1] != y2.shape[0]:
        raise perr(ValueError('shapes %s and %s not aligned' % (x.shape, y.shape)))
    out = np.empty((x2.shape[0], y2.shape[1]), dtype=object)
    for i in range(out.shape[0]):
        for j in range(out.shape[1]):
            out[i, j] = acc_sum([mul(x2[i, k], y2[k, j]) for k in range(x2.shape[1])
                                 if not (iszero(x2[i, k]) or iszero(y2[k, j]))])
    dt = res_dt('*', [a.dt, b.dt])
    if x.ndim == 1 and y.ndim == 1:
        return out[0, 0] if dt != 'float' or not isinstance(out[0, 0], int) else float(out[0, 0])
    if x.ndim == 1:
        out = out[0]
    elif y.ndim == 1:
        out = out[:, 0]
    r = NDArr(out, dt)
    if dt == 'float':
        tofloat(r)
    return r


def iszero(v):
    return isinstance(v, (int, float, Fraction)) and v == 0


def dot(ip, a, b):
    a, b = merge_nd(a), merge_nd(b)
    if isinstance(a, SpMat) or isinstance(b, SpMat):
        return sp_binop(ip, '@', a, b)
    if scalar(a) or scalar(b):
        return ip.binop('*', a, b)
    return matmul(ip, a, b)


# ------------------------------------------------------------------ indexing
def norm_index(ip, i):
    """-> list of (guard, native index)"""
    A = ip.aig
    if isinstance(i, tuple):
        out = [(TRUE, ())]
        for x in i:
            xs = norm_index(ip, x)
            out = [(A.AND(g, h), p + (v,)) for g, p in out for h, v in xs if A.AND(g, h) != FALSE]
        return out
    if isinstance(i, LP):
        i = lp_index(i)
        if i is None:
            raise Unsupported('index by a symbolic real')
    if isinstance(i, (U, SB)):
        if not all(isinstance(x, (int, tuple)) for _, x in feasible_alts(i)):
            raise Unsupported('array index union')
        return [(g, x) for g, x in alts(i) if x is not UNBOUND]
    if i is None or i is Ellipsis or isinstance(i, (int, slice)):
        if isinstance(i, slice):
            parts = [(TRUE, ())]
            for x in (i.start, i.stop, i.step):
                parts = [(A.AND(g, h), p + (y,)) for g, p in parts for h, y in alts(x)]
            return [(g, slice(*p)) for g, p in parts if g != FALSE]
        return [(TRUE, i)]
    if isinstance(i, SRange):
        i = SList(i.slots())
    if isinstance(i, SList):
        d = i.definite()
        if d is None:
            raise Unsupported('fancy index of symbolic length')
        if all(isinstance(x, PRIM) for x in d):
            return [(TRUE, list(d))]
        out = [(TRUE, [])]
        for x in d:
            out = [(A.AND(g, h), p + [v]) for g, p in out for h, v in alts(x)
                   if A.AND(g, h) != FALSE and v is not UNBOUND]
            if len(out) > 2000:
                raise Unsupported('symbolic fancy index')
        return out
    if isinstance(i, NDArr):
        if all(isinstance(x, PRIM) for x in i.a.reshape(-1)):
            return [(TRUE, nd_native(i))]
        if i.a.ndim == 1 and i.dt == 'int':
            return norm_index(ip, SList([(TRUE, x) for x in i.a]))
        raise Unsupported('symbolic mask index')
    if isinstance(i, (float, str)):
        raise perr(IndexError('only integers, slices are valid indices'))
    raise Unsupported('array index %s' % type(i))


def _wrap(r, o):
    if isinstance(r, np.ndarray):
        return NDArr(r, o.dt, o.pc)
    return r


def symbolic_mask(i):
    return isinstance(i, NDArr) and i.dt == 'bool' and i.a.ndim == 1 and not all(isinstance(x, PRIM) for x in i.a)


def nd_getitem(ip, o, i):
    if symbolic_mask(i) and i.a.size == o.a.shape[0]:
        return SList([(g, _wrap(x, o)) for g, x in ((truth(m), x) for m, x in zip(i.a, o.a)) if g != FALSE])
    if isinstance(i, SList) and i.definite() is None:
        return SList([(g, nd_getitem(ip, o, x)) for g, x in i.slots])
    alt = norm_index(ip, i)
    if len(alt) == 1:
        try:
            return _wrap(o.a[alt[0][1]], o)
        except IndexError as e:
            raise perr(e)
    out = []
    A = ip.aig
    for g, k in alt:
        if A.AND(ip.pc.full, g) == FALSE:
            continue
        try:
            out.append((g, _wrap(o.a[k], o)))
        except IndexError as e:
            ip.raise_guarded(g, e)
    return mku(out)


def nd_setitem(ip, o, i, v):
    A = ip.aig
    v = merge_nd(v)
    if isinstance(v, U) and not all(isinstance(x, PRIM) for _, x in v.alts):
        for g, x in feasible_alts(v):
            p0 = ip.pc
            ip.pc = PC(p0, g)
            nd_setitem(ip, o, i, x)
            ip.pc = p0
        return
    if symbolic_mask(i) and i.a.size == o.a.shape[0]:
        i = SList([(g, j) for g, j in ((truth(m), j) for j, m in enumerate(i.a)) if g != FALSE])
    if isinstance(i, SList) and i.definite() is None:
        if not scalar(v):
            raise Unsupported('vector stored at a fancy index of symbolic length')
        for g, x in i.slots:
            p0 = ip.pc
            ip.pc = PC(p0, g)
            if ip.pc.full != FALSE:
                nd_setitem(ip, o, x, v)
            ip.pc = p0
        return
    for g, k in norm_index(ip, i):
        try:
            tgt = o.a[k]
        except IndexError as e:
            ip.raise_guarded(g, e)
            continue
        gg = A.AND(rel(ip.pc, o.pc), g)
        if gg == FALSE:
            continue
        if not isinstance(tgt, np.ndarray):
            val = v
            if isinstance(val, (NDArr, SList, tuple)):
                nv = to_nd(ip, val, copy=False)
                if nv.a.size != 1:
                    raise perr(ValueError('setting an array element with a sequence.'))
                val = nv.a.reshape(-1)[0]
            o.a[k] = conv_el(val, o.dt) if gg == TRUE else ite(gg, conv_el(val, o.dt), tgt)
            continue
        if scalar(v):
            new = np.empty(tgt.shape, dtype=object)
            for ix in np.ndindex(*tgt.shape):
                new[ix] = v
        else:
            nv = to_nd(ip, v, copy=False).a
            try:
                new = np.broadcast_to(nv, tgt.shape)
            except ValueError:
                try:
                    if nv.ndim > tgt.ndim and nv.size == tgt.size:
                        new = nv.reshape(tgt.shape)
                    else:
                        raise
                except ValueError:
                    raise perr(ValueError('could not broadcast input array from shape %s into shape %s'
                                          % (nv.shape, tgt.shape)))
        res = np.empty(tgt.shape, dtype=object)
        for ix in np.ndindex(*tgt.shape):
            c = conv_el(new[ix], o.dt)
            res[ix] = c if gg == TRUE else ite(gg, c, tgt[ix])
        o.a[k] = res


# ------------------------------------------------------------------ attributes and methods
def nd_attr(ip, o, name):
    if name == 'shape':
        return tuple(o.a.shape)
    if name == 'size':
        return int(o.a.size)
    if name == 'ndim':
        return o.a.ndim
    if name == 'T':
        return NDArr(o.a.T, o.dt, o.pc)
    if name == 'real':
        return o if o.dt != 'complex' else elementwise(ip, lambda v: v.real if isinstance(v, complex) else v, o)
    if name == 'imag':
        return elementwise(ip, lambda v: v.imag if isinstance(v, complex) else 0.0, o)
    if name == 'flat':
        return NDArr(o.a.reshape(-1), o.dt, o.pc)
    if name == 'dtype':
        return np.dtype({'int': np.int64, 'float': np.float64, 'bool': np.bool_,
                         'complex': np.complex128, 'object': object}[o.dt])
    from .interp import SMethod
    if name in NDM or hasattr(np.ndarray, name):
        return SMethod(o, name)
    raise perr(AttributeError("'numpy.ndarray' object has no attribute '%s'" % name))


def tolist(o):
    def rec(a):
        if not isinstance(a, np.ndarray):
            return a
        return SList([(TRUE, rec(a[i])) for i in range(a.shape[0])])
    if o.a.ndim == 0:
        return o.a[()]
    return rec(o.a)


def axis_apply(ip, o, axis, f):
    """f: list of elements -> element"""
    if axis is None:
        return f(list(o.a.reshape(-1)))
    a = np.moveaxis(o.a, axis, -1)
    out = np.empty(a.shape[:-1], dtype=object)
    for ix in np.ndindex(*out.shape):
        out[ix] = f(list(a[ix]))
    return NDArr(out, join_dt({val_dt(v) for v in out.reshape(-1)}) if out.size else o.dt)


def arr_max(ip, xs, op):
    if not xs:
        raise perr(ValueError('zero-size array to reduction operation'))
    b = xs[0]
    for v in xs[1:]:
        b = ite(cmp_lit(op, v, b), v, b)
    return b


def arr_arg(ip, xs, op):
    b, bi = xs[0], 0
    for i, v in enumerate(xs[1:], 1):
        c = cmp_lit(op, v, b)
        b = ite(c, v, b)
        bi = ite(c, i, bi)
    return bi


def argsort(ip, xs):
    s, L = sorted_slots(ip, [(TRUE, i) for i in range(len(xs))], len(xs),
                        key=_key(lambda i: xs[i]))
    return [v for _, v in s]


def _key(f):
    from .models import Opaque
    o = Opaque('key')
    o.call = lambda ip, args, kw: f(args[0])
    return o


def nd_method(ip, o, name, args, kw):
    f = NDM.get(name)
    if f is not None:
        return f(ip, o, *args, **kw)
    if ip.conc(o):
        from .models import native_once
        return native_once(ip, getattr(np.ndarray, name), (o,) + tuple(args), kw)
    raise Unsupported('ndarray.%s' % name)


def _reshape(ip, o, *shape, **kw):
    if len(shape) == 1 and isinstance(shape[0], (tuple, SList)):
        shape = shape[0] if isinstance(shape[0], tuple) else tuple(shape[0].definite())
    try:
        return NDArr(o.a.reshape(shape), o.dt, o.pc)
    except ValueError as e:
        raise perr(e)


def _sum(ip, o, axis=None, keepdims=False, **kw):
    r = axis_apply(ip, o, axis, acc_sum)
    if axis is None and o.dt == 'float' and isinstance(r, int):
        r = float(r)
    if keepdims:
        if axis is None:
            a = np.empty((1,) * o.a.ndim, dtype=object)
            a[...] = None
            a.reshape(-1)[0] = r
            return NDArr(a, o.dt)
        return NDArr(np.expand_dims(r.a, axis), r.dt)
    return r


def _mean(ip, o, axis=None):
    n = o.a.size if axis is None else o.a.shape[axis]
    return ip.binop('/', _sum(ip, o, axis), n)


def _fill(ip, o, v):
    nd_setitem(ip, o, slice(None), v)


def _prod(ip, xs):
    r = 1
    for x in xs:
        r = mul(r, x)
    return r


def _round(ip, o, nd=0, decimals=None):
    from .mbuiltin import m_round
    nd = nd if decimals is None else decimals
    if not ip.conc(o):
        return elementwise(ip, lambda v: m_round(ip, (v, nd), {}), o)
    return ip.from_native(np.around(nd_native(o), nd), {})


def _nd_sort(ip, o, axis=-1, **kw):
    a = np.moveaxis(o.a, axis, -1)
    for ix in np.ndindex(*a.shape[:-1]):
        s, _ = sorted_slots(ip, [(TRUE, v) for v in a[ix]], a.shape[-1])
        row = [v for _, v in (SList(s, segs=[(len(s), a.shape[-1])]).compact_slots()
                              if not all(g == TRUE for g, _ in s) else s)]
        g = rel(ip.pc, o.pc)
        for k, v in enumerate(row):
            a[ix + (k,)] = ite(g, v, a[ix + (k,)])


def _conj(ip, o):
    if o.dt == 'complex':
        return elementwise(ip, lambda v: v.conjugate() if isinstance(v, complex) else v, o)
    return NDArr(o.a.copy(), o.dt)


NDM = {
    'dot': lambda ip, o, b: dot(ip, o, b),
    'copy': lambda ip, o, *a, **k: NDArr(o.a.copy(), o.dt),
    'tolist': lambda ip, o: tolist(o),
    'tobytes': lambda ip, o, *a: ('bytes of', o.dt) + tuple(o.a.reshape(-1)),    # only compared and hashed
    'sum': _sum,
    'mean': _mean,
    'prod': lambda ip, o, axis=None: axis_apply(ip, o, axis, lambda xs: _prod(ip, xs)),
    'max': lambda ip, o, axis=None: axis_apply(ip, o, axis, lambda xs: arr_max(ip, xs, '>')),
    'min': lambda ip, o, axis=None: axis_apply(ip, o, axis, lambda xs: arr_max(ip, xs, '<')),
    'argmax': lambda ip, o, axis=None: axis_apply(ip, o, axis, lambda xs: arr_arg(ip, xs, '>')),
    'argmin': lambda ip, o, axis=None: axis_apply(ip, o, axis, lambda xs: arr_arg(ip, xs, '<')),
    'any': lambda ip, o, axis=None: axis_apply(ip, o, axis, lambda xs: mkb(ip.aig.ORS(truth(x) for x in xs))),
    'all': lambda ip, o, axis=None: axis_apply(ip, o, axis, lambda xs: mkb(ip.aig.ANDS(truth(x) for x in xs))),
    'conj': _conj,
    'conjugate': _conj,
    'transpose': lambda ip, o, *a: NDArr(o.a.transpose(*a), o.dt, o.pc),
    'reshape': _reshape,
    'flatten': lambda ip, o, *a: NDArr(o.a.flatten(), o.dt),
    'ravel': lambda ip, o, *a: NDArr(o.a.ravel(), o.dt, o.pc),
    'squeeze': lambda ip, o, *a: NDArr(o.a.squeeze(*a), o.dt, o.pc),
    'astype': lambda ip, o, dt, **k: astype(ip, o, dtname(dt)),
    'fill': _fill,
    'item': lambda ip, o, *a: o.a.item(*a),
    'trace': lambda ip, o: acc_sum([o.a[i, i] for i in range(min(o.a.shape))]),
    'diagonal': lambda ip, o: NDArr(o.a.diagonal().copy(), o.dt),
    'round': _round,
    'sort': _nd_sort,
    'argsort': lambda ip, o, **k: NDArr(np.array(argsort(ip, list(o.a)) + [None], dtype=object)[:-1], 'int'),
    'cumsum': lambda ip, o: NDArr(_cumsum(o.a), o.dt),
}


def _cumsum(a):
    out = np.empty(a.size, dtype=object)
    acc = 0
    for i, v in enumerate(a.reshape(-1)):
        acc = acc_sum([acc, v])
        out[i] = acc
    return out


from .msp import SpMat, sparse_from_native, sp_binop, sp_attr, sp_getitem, sp_setitem, sp_method, sp_models  # noqa: E402,E501
from .mnpf import np_models   # noqa: E402


def models():
    return np_models() + sp_models()
