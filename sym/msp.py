"""Models of scipy.sparse coo / csr matrices as guarded triplets."""
import numpy as np
import scipy.sparse as sp
from .aig import FALSE, TRUE
from . import vals as V
from .vals import (st, PC, rel, Unsupported, UNBOUND, PRIM, SB, U, mku, alts, LP, Q, eq, truth, ite, mkb,
                   SList, NDArr, num_op, tolp, Fraction)
from .mseq import perr, compact
from .interp_types import lazy_mnp as mnp


class SpMat:
    """ent: [(guard, value, row, col)] with concrete rows and columns"""

    def __init__(self, ent, shape, fmt, dt='float', pc=None):
        self.ent = ent
        self.shape = tuple(shape)
        self.fmt = fmt
        self.dt = dt
        self.pc = pc or st.pc
        self.cache = {}

    def cls(self):
        return {'coo': sp.coo_matrix, 'csr': sp.csr_matrix, 'csc': sp.csc_matrix}[self.fmt]

    def isconc(self, ip):
        return all(g == TRUE and isinstance(v, PRIM) for g, v, _, _ in self.ent)

    def to_scipy(self, ip):
        t = {'float': np.float64, 'int': np.int64, 'bool': np.bool_, 'complex': complex}[self.dt]
        f = {'float': float, 'int': int, 'bool': bool, 'complex': complex}[self.dt]
        d = np.array([f(e[1]) for e in self.ent], dtype=t)
        m = sp.coo_matrix((d, ([e[2] for e in self.ent], [e[3] for e in self.ent])), shape=self.shape)
        return m if self.fmt == 'coo' else m.asformat(self.fmt)

    def copy(self):
        return SpMat(list(self.ent), self.shape, self.fmt, self.dt)

    def index(self):
        """{(r, c): [(guard, value)]}"""
        if self.cache.get('n') != len(self.ent):
            d = {}
            for g, v, r, c in self.ent:
                if g != FALSE:
                    d.setdefault((r, c), []).append((g, v))
            self.cache = {'n': len(self.ent), 'd': d}
        return self.cache['d']

    def at(self, r, c):
        return total(self.index().get((r, c), []))


def total(gs):
    if not gs:
        return 0.0
    if all(g == TRUE and isinstance(v, PRIM) for g, v in gs):
        s = 0
        for _, v in gs:
            s = s + v
        return s
    t = LP({})
    for g, v in gs:
        if isinstance(v, Q):
            t = (v if g == TRUE else v.guard(g)) + t
            continue
        t = t + (tolp(v) if g == TRUE else tolp(v).guard(g))
    return t if isinstance(t, Q) else mnp().simp(t)


def sparse_from_native(ip, x):
    if not sp.issparse(x):
        return None
    if x.format not in ('coo', 'csr', 'csc'):
        x = x.tocsr()
    c = x.tocoo()
    k = {'f': 'float', 'i': 'int', 'b': 'bool', 'c': 'complex'}.get(x.dtype.kind)
    if k is None:
        raise Unsupported('sparse dtype')
    return SpMat([(TRUE, v, int(r), int(cc)) for v, r, cc in zip(c.data.tolist(), c.row, c.col)],
                 x.shape, x.format, k)


def seq_slots(ip, x):
    if isinstance(x, NDArr):
        return [(TRUE, v) for v in x.a.reshape(-1)]
    return [(s[0], s[1]) for s in ip.iter_slots(x)]


def construct(ip, fmt, arg, shape=None, dtype=None, **k):
    A = ip.aig
    M = mnp()
    arg = M.merge_nd(arg)
    if isinstance(arg, U):
        return ip.map_alts(arg, lambda x: construct(ip, fmt, x, shape, dtype, **k))
    if isinstance(shape, SList):
        shape = tuple(shape.definite())
    if isinstance(arg, SpMat):
        return convert(ip, arg, fmt)
    if isinstance(arg, (NDArr, SList)):
        a = M.to_nd(ip, arg, copy=False)
        if a.a.ndim == 1:
            a = NDArr(a.a.reshape(1, -1), a.dt)
        ent = []
        for ix in np.ndindex(*a.a.shape):
            v = a.a[ix]
            if not M.iszero(v):
                ent.append((TRUE, v, ix[0], ix[1]))
        return SpMat(ent, a.a.shape, fmt, a.dt)
    if isinstance(arg, tuple) and len(arg) == 2 and all(isinstance(x, int) for x in arg):
        return SpMat([], arg, fmt, M.dtname(dtype) or 'float')
    if isinstance(arg, tuple) and len(arg) == 3:
        data, ind, ptr = arg
        d = [v for g, v in seq_slots(ip, data)]
        j = [v for g, v in seq_slots(ip, ind)]
        p = [v for g, v in seq_slots(ip, ptr)]
        if not all(isinstance(x, int) for x in j + p):
            raise Unsupported('symbolic csr structure')
        if len(d) != len(j) or (p and p[-1] > len(d)):
            raise perr(ValueError('indices and data should have the same size'))
        ent = []
        for r in range(len(p) - 1):
            for q in range(p[r], p[r + 1]):
                ent.append((TRUE, d[q], r, j[q]) if fmt == 'csr' else (TRUE, d[q], j[q], r))
        if shape is None:
            mj = max(j) + 1 if j else 0
            shape = (len(p) - 1, mj) if fmt == 'csr' else (mj, len(p) - 1)
        ds = {M.val_dt(x) for x in d}
        return SpMat(ent, shape, fmt, M.join_dt(ds) if ds else 'float')
    if isinstance(arg, tuple) and len(arg) == 2:
        data, rc = arg
        if isinstance(rc, SList):
            rc = tuple(rc.definite())
        rows, cols = rc
        sd, sr, sc = (seq_slots(ip, x) for x in (data, rows, cols))
        if not (len(sd) == len(sr) == len(sc) and
                all(a[0] == b[0] == c[0] for a, b, c in zip(sd, sr, sc))):
            cd = [compact(SList(s)) for s in (sd, sr, sc)]
            if not (len(cd[0]) == len(cd[1]) == len(cd[2])):
                raise perr(ValueError('row, column, and data array must all be the same length'))
            bad = A.ORS(A.OR(A.XOR(a[0], b[0]), A.XOR(a[0], c[0])) for a, b, c in zip(*cd))
            ip.raise_guarded(bad, ValueError('row, column, and data array must all be the same length'))
            sd, sr, sc = cd
        if shape is not None:
            sh = [x for x in shape]
            for q, x in enumerate(sh):
                if isinstance(x, (U, LP, SB)):
                    return ip.map_alts(x, lambda y: construct(ip, fmt, arg, tuple(sh[:q] + [y] + sh[q + 1:]),
                                                              dtype, **k))
        ent = []
        dts = set()
        for (g, v), (_, r), (_, c) in zip(sd, sr, sc):
            dts.add(M.val_dt(v))
            for h1, rr in alts(r):
                for h2, cc in alts(c):
                    gg = A.AND(g, A.AND(h1, h2))
                    if gg == FALSE or rr is UNBOUND or cc is UNBOUND:
                        continue
                    if not (isinstance(rr, int) and isinstance(cc, int)):
                        if ip.infeasible(A.AND(ip.pc.full, gg)):
                            continue
                        raise Unsupported('sparse index of type %s' % type(rr).__name__)
                    if shape is not None and not (0 <= rr < shape[0] and 0 <= cc < shape[1]):
                        ip.raise_guarded(gg, ValueError('axis index exceeds matrix dimension'))
                        continue
                    ent.append((gg, v, rr, cc))
        if shape is None:
            if not all(e[0] == TRUE for e in ent):
                raise Unsupported('sparse matrix without a shape')
            shape = (max(e[2] for e in ent) + 1, max(e[3] for e in ent) + 1)
        return SpMat(ent, shape, fmt, M.dtname(dtype) or (M.join_dt(dts) if dts else 'float'))
    raise Unsupported('sparse constructor')


def canon(ip, m, colmajor=False):
    """sum duplicates, sorted"""
    d = m.index()
    keys = sorted(d, key=(lambda k: (k[1], k[0])) if colmajor else None)
    ent = []
    for r, c in keys:
        gs = d[(r, c)]
        if len(gs) == 1:
            ent.append((gs[0][0], gs[0][1], r, c))
        else:
            ent.append((ip.aig.ORS(g for g, _ in gs), total(gs), r, c))
    return ent


def convert(ip, m, fmt):
    if m.fmt == fmt:
        return m.copy()
    if fmt == 'coo':
        return SpMat(list(m.ent), m.shape, 'coo', m.dt)
    return SpMat(canon(ip, m, fmt == 'csc'), m.shape, fmt, m.dt)


def toarray(ip, m):
    M = mnp()
    a = np.empty(m.shape, dtype=object)
    for ix in np.ndindex(*m.shape):
        a[ix] = 0.0 if m.dt == 'float' else 0
    for (r, c), gs in m.index().items():
        a[r, c] = total(gs)
    r = NDArr(a, m.dt)
    if m.dt == 'float':
        M.tofloat(r)
    return r


def sp_dot(ip, m, x):
    M = mnp()
    x = M.merge_nd(x)
    if isinstance(x, U):
        return ip.map_alts(x, lambda y: sp_dot(ip, m, y))
    if M.scalar(x):
        return sp_binop(ip, '*', m, x)
    if isinstance(x, SpMat):
        rows = {}
        for (r, c) in x.index():
            rows.setdefault(r, []).append(c)
        out = {}
        for (r, k) in m.index():
            a = m.at(r, k)
            for c in rows.get(k, ()):
                out.setdefault((r, c), []).append(M.mul(a, x.at(k, c)))
        if m.shape[1] != x.shape[0]:
            raise perr(ValueError('dimension mismatch'))
        return SpMat([(TRUE, M.acc_sum(v), r, c) for (r, c), v in sorted(out.items())],
                     (m.shape[0], x.shape[1]), 'csr', M.join_dt([m.dt, x.dt]))
    x = M.to_nd(ip, x, copy=False)
    if x.a.shape[0] != m.shape[1]:
        raise perr(ValueError('dimension mismatch'))
    x2 = x.a if x.a.ndim == 2 else x.a.reshape(-1, 1)
    items = {}
    for (r, c), gs in m.index().items():
        items.setdefault(r, []).append((c, total(gs)))
    out = np.empty((m.shape[0], x2.shape[1]), dtype=object)
    for r in range(m.shape[0]):
        for j in range(x2.shape[1]):
            out[r, j] = M.acc_sum([M.mul(v, x2[c, j]) for c, v in items.get(r, ()) if not M.iszero(x2[c, j])])
    res = NDArr(out if x.a.ndim == 2 else out[:, 0], M.join_dt([m.dt, x.dt]))
    if res.dt == 'float':
        M.tofloat(res)
    return res


def sp_binop(ip, op, a, b):
    M = mnp()
    if isinstance(a, SpMat) and op == '@' or (op == '*' and isinstance(a, SpMat) and not M.scalar(b)):
        return sp_dot(ip, a, b)
    if isinstance(b, SpMat) and op in ('@', '*') and not M.scalar(a):
        t = sp_dot(ip, SpMat([(g, v, c, r) for g, v, r, c in b.ent], b.shape[::-1], 'csr', b.dt),
                   NDArr(M.to_nd(ip, a, copy=False).a.T, M.to_nd(ip, a, copy=False).dt))
        return NDArr(t.a.T, t.dt)
    if op in ('*', '/'):
        m, s = (a, b) if isinstance(a, SpMat) else (b, a)
        if op == '/' and not isinstance(a, SpMat):
            raise Unsupported('division by a sparse matrix')
        return SpMat([(g, ip.binop(op, v, s), r, c) for g, v, r, c in m.ent], m.shape, m.fmt,
                     'float' if op == '/' else M.join_dt([m.dt, M.val_dt(s)]))
    if op in ('+', '-'):
        if isinstance(a, SpMat) and isinstance(b, SpMat):
            if a.shape != b.shape:
                raise perr(ValueError('inconsistent shapes'))
            neg = (lambda v: num_op('-', 0, v)) if op == '-' else (lambda v: v)
            m = SpMat(a.ent + [(g, neg(v), r, c) for g, v, r, c in b.ent], a.shape, 'csr', M.join_dt([a.dt, b.dt]))
            m.ent = canon(ip, m)
            return m
        x = toarray(ip, a) if isinstance(a, SpMat) else a
        y = toarray(ip, b) if isinstance(b, SpMat) else b
        return M.nd_binop(ip, op, x, y)
    raise Unsupported('sparse operator %s' % op)


def fixed(m):
    if not all(e[0] == TRUE for e in m.ent):
        raise Unsupported('structure of a symbolic sparse matrix')
    return m.ent


def arr(xs, dt):
    a = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        a[i] = x
    return NDArr(a, dt)


def col(m, k, dt):
    """per-entry array; a list with guarded slots when the structure is symbolic"""
    if all(e[0] == TRUE for e in m.ent):
        return arr([e[k] for e in m.ent], dt)
    return SList([(e[0], e[k]) for e in m.ent], m.pc)


def sp_attr(ip, o, name):
    if name == 'shape':
        return o.shape
    if name == 'data':
        k = ('data', len(o.ent))
        if o.cache.get('dk') != k:
            o.cache['dk'], o.cache['da'] = k, col(o, 1, o.dt)
        return o.cache['da']
    if name == 'row' and o.fmt == 'coo':
        return col(o, 2, 'int')
    if name == 'col' and o.fmt == 'coo':
        return col(o, 3, 'int')
    if name == 'indices' and o.fmt in ('csr', 'csc'):
        return arr([e[3 if o.fmt == 'csr' else 2] for e in fixed(o)], 'int')
    if name == 'indptr' and o.fmt in ('csr', 'csc'):
        k = 2 if o.fmt == 'csr' else 3
        n = o.shape[0 if o.fmt == 'csr' else 1]
        cnt = [0] * (n + 1)
        for e in fixed(o):
            cnt[e[k] + 1] += 1
        for i in range(n):
            cnt[i + 1] += cnt[i]
        return arr(cnt, 'int')
    if name == 'T':
        return sp_T(ip, o)
    if name == 'nnz':
        return V.count_u([e[0] for e in o.ent])
    if name == 'ndim':
        return 2
    if name == 'format':
        return o.fmt
    if name == 'dtype':
        return np.dtype({'int': np.int64, 'float': np.float64, 'bool': np.bool_, 'complex': complex}[o.dt])
    if not hasattr(o.cls(), name):
        raise perr(AttributeError("'%s_matrix' object has no attribute '%s'" % (o.fmt, name)))
    from .interp import SMethod
    return SMethod(o, name)


def sp_T(ip, o):
    f = {'csr': 'csc', 'csc': 'csr', 'coo': 'coo'}[o.fmt]
    return SpMat([(g, v, c, r) for g, v, r, c in o.ent], o.shape[::-1], f, o.dt)


def sp_method(ip, o, name, args, kw):
    M = mnp()
    if name in ('toarray', 'todense'):
        return toarray(ip, o)
    if name in ('tocsr', 'tocsc', 'tocoo', 'asformat'):
        f = name[2:] if name != 'asformat' else args[0]
        if f == o.fmt and not (args or kw.get('copy')):
            return o
        return convert(ip, o, f)
    if name == 'copy':
        return o.copy()
    if name == 'dot':
        return sp_dot(ip, o, args[0])
    if name == 'multiply' and M.scalar(args[0]):
        return sp_binop(ip, '*', o, args[0])
    if name == 'diagonal':
        return arr([_f(o.at(i, i), o) for i in range(min(o.shape))], o.dt)
    if name in ('transpose',):
        return sp_T(ip, o)
    if name in ('conj', 'conjugate'):
        return o.copy()
    if name == 'sum_duplicates':
        o.ent = canon(ip, o)
        return None
    if name == 'eliminate_zeros':
        ent = []
        for g, v, r, c in o.ent:
            ent.append((ip.aig.AND(g, eq(v, 0) ^ 1), v, r, c))
        o.ent = [e for e in ent if e[0] != FALSE]
        o.cache = {}
        return None
    if name == 'getnnz':
        return V.count_u([e[0] for e in o.ent])
    if name == 'sum':
        return M._sum(ip, toarray(ip, o), *args, **kw)
    if name == 'trace':
        return M.acc_sum([o.at(i, i) for i in range(min(o.shape))])
    if name == 'nonzero':
        raise Unsupported('nonzero of a symbolic sparse matrix')
    if o.isconc(ip):
        from .models import native_once
        return native_once(ip, getattr(o.cls(), name), (o,) + tuple(args), kw)
    raise Unsupported('sparse method %s' % name)


def _f(v, o):
    return float(v) if o.dt == 'float' and isinstance(v, int) else v


def sp_getitem(ip, o, i):
    M = mnp()
    if o.fmt == 'coo':
        raise perr(TypeError("'coo_matrix' object is not subscriptable"))
    if isinstance(i, tuple) and len(i) == 2:
        alt = M.norm_index(ip, i)
        if all(isinstance(r, int) and isinstance(c, int) for _, (r, c) in alt):
            out = []
            for g, (r, c) in alt:
                if not (-o.shape[0] <= r < o.shape[0] and -o.shape[1] <= c < o.shape[1]):
                    ip.raise_guarded(g, IndexError('index out of range'))
                    continue
                out.append((g, _f(o.at(r % o.shape[0], c % o.shape[1]), o)))
            return mku(out)
    a = M.nd_getitem(ip, toarray(ip, o), i)
    if isinstance(a, NDArr):
        x = a.a if a.a.ndim == 2 else a.a.reshape(1, -1) if not (
            isinstance(i, tuple) and isinstance(i[1], int)) else a.a.reshape(-1, 1)
        return construct(ip, 'csr', NDArr(x, a.dt))
    return a


def sp_setitem(ip, o, i, v):
    if o.fmt == 'coo':
        raise perr(TypeError("'coo_matrix' object does not support item assignment"))
    M = mnp()
    A = ip.aig
    for g, k in M.norm_index(ip, i):
        if not (isinstance(k, tuple) and len(k) == 2 and all(isinstance(x, int) for x in k)):
            raise Unsupported('sparse slice store')
        r, c = k[0] % o.shape[0], k[1] % o.shape[1]
        gg = A.AND(rel(ip.pc, o.pc), g)
        old = o.at(r, c)
        o.ent = [e for e in o.ent if (e[2], e[3]) != (r, c)] + [(TRUE, ite(gg, v, old), r, c)]
        o.cache = {}
    if o.fmt == 'csr':
        o.ent.sort(key=lambda e: (e[2], e[3]))


def m_eye(ip, a, k):
    from .models import native_once
    return native_once(ip, sp.eye, a, k)


def m_diags(ip, a, k):
    M = mnp()
    from .models import native_once
    if all(ip.conc(x) for x in a) and all(ip.conc(x) for x in k.values()):
        return native_once(ip, sp.diags, a, k)
    d = M.to_nd(ip, a[0], copy=False).a
    d = d.reshape(-1)
    return SpMat([(TRUE, v, i, i) for i, v in enumerate(d)], (len(d), len(d)), 'csr')


def m_issparse(ip, a, k):
    return isinstance(a[0], SpMat)


def sp_models():
    out = []
    for f, fmt in ((sp.coo_matrix, 'coo'), (sp.csr_matrix, 'csr'), (sp.csc_matrix, 'csc'),
                   (sp.coo_array, 'coo'), (sp.csr_array, 'csr')):
        def mk(fmt):
            def h(ip, a, k):
                k = dict(k)
                k.pop('copy', None)
                return construct(ip, fmt, *a, **k)
            return h
        out.append((f, mk(fmt)))
    out.append((sp.diags, m_diags))
    out.append((sp.issparse, m_issparse))
    return out
