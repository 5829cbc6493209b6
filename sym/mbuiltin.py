"""Models of builtin and standard-library functions."""
import bisect
import builtins
import collections
import copy as copymod
import functools
import itertools
from . import pylib
import json
import math
import operator
import os
import random
import time
import numpy as np
from .aig import FALSE, TRUE
from . import vals as V
from .vals import (st, PC, rel, Unsupported, UNBOUND, PRIM, SB, U, mku, alts, feasible_alts, LP, Q,
                   cmp_lit, eq, truth, ite, mkb, SList, UList, SRange, SSet, SDict, SObj, NDArr, SIter,
                   count_u, lp_to_u, num_op, tolp, Fraction, isbool)
from . import mseq
from .mseq import (View, perr, dead, to_slist, to_tuple, sorted_slots, compact)

M = {}


def model(*fs):
    def d(h):
        for f in fs:
            M[id(f)] = (f, h)
        return h
    return d


def build(ip):
    from . import mnp
    d = {}
    for f, h in list(M.values()) + mnp.models():
        d[id(f)] = h
        if type(f).__name__ == 'builtin_function_or_method' and isinstance(f.__self__, type):
            d[(f.__self__, f.__name__)] = h
    ip._model_refs = [f for f, _ in M.values()]
    try:
        import tqdm as tq
        from tqdm import tqdm, trange
        d[id(tqdm)] = m_tqdm
        d[id(trange)] = lambda ip, a, k: m_range(ip, a, {})
        import tqdm.auto
        d[id(tqdm.auto.tqdm)] = m_tqdm
    except ImportError:
        pass
    return d


def nokw(kw, *allowed):
    for k in kw:
        if k not in allowed:
            raise Unsupported('keyword %s' % k)


def m_tqdm(ip, a, k):
    from .models import Opaque
    if a:
        return a[0]
    if 'iterable' in k and k['iterable'] is not None:
        return k['iterable']
    return Opaque('tqdm')


@model(print)
def m_print(ip, a, k):
    return None


@model(len)
def m_len(ip, a, k):
    o = a[0]
    if isinstance(o, U):
        return mku([(g, m_len(ip, (x,), k)) for g, x in feasible_alts(o)])
    if isinstance(o, (tuple, str)):
        return len(o)
    if isinstance(o, UList):
        return count_u([g for g, _ in o.raw])
    if isinstance(o, SList):
        return o.length()
    if isinstance(o, SSet):
        return count_u([g for g, _ in o.members()])
    if isinstance(o, SDict):
        return count_u([g for _, g, _ in o.entries])
    if isinstance(o, NDArr):
        if o.a.ndim == 0:
            raise perr(TypeError('len() of unsized object'))
        return o.a.shape[0]
    if isinstance(o, (SRange, View)):
        return count_u([s[0] for s in o.slots()])
    if isinstance(o, SObj):
        return ip.call(ip.getattr(o, '__len__'), ())
    if isinstance(o, PRIM) or isinstance(o, (LP, Q, SB, SIter)):
        raise perr(TypeError("object of type '%s' has no len()" % type(o).__name__))
    try:
        return len(o)
    except TypeError as e:
        raise perr(e)


@model(range)
def m_range(ip, a, k):
    a = [lp_to_u(x) if isinstance(x, LP) else x for x in a]
    for x in a:
        for g, v in alts(x):
            if v is UNBOUND or v is None or isinstance(v, Q) or not isinstance(v, int):
                if not ip.infeasible(ip.aig.AND(ip.pc.full, g)):
                    raise perr(TypeError("'%s' object cannot be interpreted as an integer" % type(v).__name__))
    if len(a) == 1:
        return SRange(0, a[0], 1)
    if len(a) == 2:
        return SRange(a[0], a[1], 1)
    return SRange(a[0], a[1], a[2])


@model(enumerate)
def m_enumerate(ip, a, k):
    o = a[0]
    start = a[1] if len(a) > 1 else k.get('start', 0)
    if isinstance(o, U):
        return ip.map_alts(o, lambda x: m_enumerate(ip, (x, start), {}))
    sl = pos_slots(ip, o)
    return SIter([(g, (num_op('+', start, i) if not isinstance(start, int) else start + i, v))
                  for i, (g, v) in enumerate(sl)])


def pos_slots(ip, o):
    """positional slots (exists, value) of an iterable"""
    if isinstance(o, SIter) and o.slots is not None:
        sl = [(s[0], s[1]) for s in o.slots]
        o = SList(sl, o.pc)
    if isinstance(o, SList):
        return compact(o)
    sl = [(s[0], s[1]) for s in ip.iter_slots(o)]
    if all(g == TRUE for g, _ in sl):
        return sl
    return SList(sl).compact_slots()


@model(zip)
def m_zip(ip, a, k):
    cols = [pos_slots(ip, o) if not isinstance(o, U) else
            pos_slots(ip, ip.map_alts(o, lambda x: to_slist(ip, x))) for o in a]
    if not cols:
        return SIter([])
    n = min(len(c) for c in cols)
    A = ip.aig
    return SIter([(A.ANDS(c[i][0] for c in cols), tuple(c[i][1] for c in cols)) for i in range(n)])


@model(sum)
def m_sum(ip, a, k):
    start = a[1] if len(a) > 1 else k.get('start', 0)
    o = a[0]
    sl = ip.iter_slots(o)
    acc = start
    A = ip.aig
    if all(isinstance(s[1], (PRIM, SB, U, LP)) for s in sl) and isinstance(acc, (int, float)) and \
            not all(s[0] == TRUE and isinstance(s[1], PRIM) for s in sl):
        if all(all(isinstance(x, (int, float, Fraction)) for _, x in (s[1].alts if isinstance(s[1], U) else ()))
               for s in sl) and not any(isinstance(s[1], str) or s[1] is None for s in sl):
            t = V.lpconst(acc)
            anyreal = False
            for s in sl:
                x = tolp(s[1])
                if not x.noreal():
                    anyreal = True
                t = t + (x if s[0] == TRUE else x.guard(s[0]))
            if not anyreal:
                u = lp_to_u(t)
                if u is not None:
                    return prune_u(ip, u)
            return t
    for s in sl:
        n = ip.binop('+', acc, s[1])
        acc = n if s[0] == TRUE else ite(s[0], n, acc)
    return acc


def prune_u(ip, u):
    if isinstance(u, U):
        f = feasible_alts(u)
        if f and len(f) < len(u.alts):
            return mku(f)
    return u


def fold(ip, a, k, op):
    key = k.get('key')
    if len(a) == 1:
        if isinstance(a[0], U):
            return ip.map_alts(a[0], lambda x: fold(ip, (x,), k, op))
        if isinstance(a[0], NDArr):
            sl = [(TRUE, x) for x in a[0].a.reshape(-1)] if a[0].a.ndim == 1 else ip.iter_slots(a[0])
        else:
            sl = [(s[0], s[1]) for s in ip.iter_slots(a[0])]
    else:
        sl = [(TRUE, x) for x in a]
    A = ip.aig
    none = A.ANDS(g ^ 1 for g, _ in sl)
    if none != FALSE:
        if 'default' in k:
            dflt = k['default']
        else:
            ip.raise_guarded(none, ValueError('%s() iterable argument is empty' % ('min' if op == '<' else 'max')))
            dflt = None
    best = bk = None
    have = FALSE
    for g, v in sl:
        if g == FALSE:
            continue
        kv = v if key is None else ip.call(key, (v,))
        if best is None:
            best, bk, have = v, kv, g
            continue
        if isinstance(kv, NDArr) or isinstance(bk, NDArr):
            raise perr(ValueError('The truth value of an array with more than one element is ambiguous'))
        c = cmp_lit(op, kv, bk)
        c = A.AND(g, A.OR(have ^ 1, c))
        best = ite(c, v, best)
        bk = ite(c, kv, bk)
        have = A.OR(have, g)
    if have == FALSE:
        return dflt
    if none not in (FALSE,) and 'default' in k:
        best = ite(none, dflt, best)
    return best


@model(min)
def m_min(ip, a, k):
    return fold(ip, a, k, '<')


@model(max)
def m_max(ip, a, k):
    return fold(ip, a, k, '>')


@model(sorted)
def m_sorted(ip, a, k):
    o = a[0]
    if isinstance(o, U):
        return ip.map_alts(o, lambda x: m_sorted(ip, (x,), k))
    if isinstance(o, SSet):
        sl = o.members()
        if all(isinstance(v, PRIM) for _, v in sl) is False:
            sl = o.members()
        known = None
    elif isinstance(o, UList):
        sl, known = o.raw, None
    else:
        sl = [(s[0], s[1]) for s in ip.iter_slots(o)]
        known = o.known_len() if isinstance(o, SList) else None
    if all(g == TRUE for g, _ in sl):
        known = len(sl)
    s, L = sorted_slots(ip, sl, known, k.get('key'), k.get('reverse', False))
    return SList(s, segs=[(len(s), L)] if L is not None and not all(x[0] == TRUE for x in s) else None)


@model(reversed)
def m_reversed(ip, a, k):
    o = a[0]
    if isinstance(o, SRange) and o.native() is None:
        return SIter(list(reversed(o.slots())))
    return SIter(list(reversed([(s[0], s[1]) for s in ip.iter_slots(o)])))


@model(list)
def m_list(ip, a, k):
    return to_slist(ip, a[0]) if a else SList()


@model(tuple)
def m_tuple(ip, a, k):
    return to_tuple(ip, a[0]) if a else ()


def mk_set(ip, a, frozen):
    if not a:
        return SSet(frozen=frozen)
    if isinstance(a[0], U):
        return ip.map_alts(a[0], lambda x: mk_set(ip, (x,), frozen))
    if isinstance(a[0], SSet):
        s = a[0].copy()
        s.frozen = frozen
        return s
    return SSet.of([(s[0], ip.hashable(s[1])) for s in ip.iter_slots(a[0])], frozen)


@model(set)
def m_set(ip, a, k):
    return mk_set(ip, a, False)


@model(frozenset)
def m_frozenset(ip, a, k):
    return mk_set(ip, a, True)


@model(dict)
def m_dict(ip, a, k):
    d = SDict()
    mseq.dict_method(ip, d, 'update', a[:1], k)
    return d


@model(collections.OrderedDict)
def m_od(ip, a, k):
    return m_dict(ip, a, k)


@model(collections.defaultdict)
def m_dd(ip, a, k):
    d = SDict()
    d.default = a[0] if a else None
    if len(a) > 1:
        mseq.dict_method(ip, d, 'update', a[1:2], k)
    return d


@model(collections.Counter)
def m_counter(ip, a, k):
    d = SDict()
    d.default = int
    if a:
        for s in ip.iter_slots(a[0]):
            key = ip.hashable(s[1])
            p, v = d.lookup(key)
            cur = 0 if p == FALSE else ite(p, v, 0)
            d.set(key, num_op('+', cur, 1), s[0])
    return d


@model(any)
def m_any(ip, a, k):
    A = ip.aig
    if isinstance(a[0], NDArr):
        return mkb(A.ORS(truth(x) for x in a[0].a.reshape(-1)))
    return mkb(A.ORS(A.AND(s[0], truth(s[1])) for s in ip.iter_slots(a[0])))


@model(all)
def m_all(ip, a, k):
    A = ip.aig
    return mkb(A.ANDS(A.OR(s[0] ^ 1, truth(s[1])) for s in ip.iter_slots(a[0])))


@model(abs, operator.abs, math.fabs)
def m_abs(ip, a, k):
    x = a[0]
    if isinstance(x, NDArr):
        from . import mnp
        return mnp.elementwise(ip, lambda v: m_abs(ip, (v,), {}), x)
    if isinstance(x, (LP, Q)):
        return ite(cmp_lit('<', x, 0), -x, x)
    if isinstance(x, (U, SB)):
        return mku([(g, m_abs(ip, (v,), {})) for g, v in alts(x) if v is not UNBOUND])
    try:
        return abs(x)
    except TypeError as e:
        raise perr(e)


@model(round)
def m_round(ip, a, k):
    x = a[0]
    nd = a[1] if len(a) > 1 else k.get('ndigits')
    if isinstance(x, LP) and x.noreal():
        x = lp_to_u(x)
    if isinstance(x, (LP, Q)):
        if nd not in (None, 0):
            return round_digits(ip, x, nd)
        return round_real(ip, x)
    if isinstance(x, U) and any(isinstance(v, (LP, Q)) for _, v in x.alts):
        return mku([(g, m_round(ip, [v] + a[1:], k)) for g, v in x.alts if v is not UNBOUND])
    if isinstance(x, (U, SB)):
        return mku([(g, round(float(v) if isinstance(v, Fraction) else v, nd) if nd is not None else
                     round(v)) for g, v in alts(x) if v is not UNBOUND])
    try:
        return round(x) if nd is None else round(x, nd)
    except Exception as e:
        raise perr(e)


_rounds = [0]


def round_digits(ip, x, nd):
    """a multiple of 10^-nd within half a unit of x (ties may go either way: an over-approximation, replays decide)"""
    import z3
    from .vals import lp_z3, lp_eval_samples, tolp
    if isinstance(x, Q):
        raise Unsupported('round of a symbolic fraction to %s digits' % nd)
    if not isinstance(nd, int):
        raise Unsupported('round to a symbolic number of digits')
    lp = tolp(x)
    A = ip.aig
    p = Fraction(10) ** nd
    _rounds[0] += 1
    name = '~round%d' % _rounds[0]
    A.real_samples[name] = [Fraction(round(v * p)) / p for v in lp_eval_samples(lp)]
    r, k = z3.Real(name), z3.Int(name + 'i')
    d = z3.RealVal(str(p)) * lp_z3(lp) - z3.ToReal(k)
    c = z3.And(r * z3.RealVal(str(p)) == z3.ToReal(k), d <= z3.Q(1, 2), d >= z3.Q(-1, 2))
    A.add_real_constraint(c, lambda: c)
    return LP({((name,), TRUE): Fraction(1)})


def round_real(ip, x, lo=-4, hi=24):
    """nearest integer, ties to the even one, of a symbolic real between lo and hi"""
    A = ip.aig
    pairs = []
    for k in range(lo, hi + 1):
        ge, le = ('>=', '<=') if k % 2 == 0 else ('>', '<')
        g = A.AND(cmp_lit(ge, x, Fraction(2 * k - 1, 2)), cmp_lit(le, x, Fraction(2 * k + 1, 2)))
        if not ip.infeasible(A.AND(ip.pc.full, g)):
            pairs.append((g, k))
    out = A.NOT(A.ORS([g for g, _ in pairs]))
    if not ip.infeasible(A.AND(ip.pc.full, out)):
        raise Unsupported('round of a symbolic real outside %d..%d' % (lo, hi))
    return mku(pairs)


def type_of(ip, x):
    from . import mnp
    if isinstance(x, SList):
        return list if x.kind == 'list' else tuple
    if isinstance(x, SB):
        return bool
    if isinstance(x, LP):
        return float
    if isinstance(x, (Q, Fraction)):
        return float
    if isinstance(x, NDArr):
        return np.ndarray
    if isinstance(x, mnp.SpMat):
        return x.cls()
    if isinstance(x, SSet):
        return frozenset if x.frozen else set
    if isinstance(x, SDict):
        return dict
    if isinstance(x, SObj):
        return x.cls
    if isinstance(x, SRange):
        return range
    return type(x)


@model(isinstance)
def m_isinstance(ip, a, k):
    o, c = a
    if isinstance(o, U):
        return mku([(g, m_isinstance(ip, (x, c), k)) for g, x in o.alts if x is not UNBOUND])
    if isinstance(o, LP) and o.noreal() and lp_to_u(o) is not None:
        u = lp_to_u(o)
        return m_isinstance(ip, (u, c), k)
    if isinstance(c, tuple):
        r = FALSE
        for x in c:
            r = ip.aig.OR(r, truth(m_isinstance(ip, (o, x), k)))
        return mkb(r)
    t = type_of(ip, o)
    try:
        return issubclass(t, c)
    except TypeError as e:
        raise perr(e)


@model(type)
def m_type(ip, a, k):
    o = a[0]
    if isinstance(o, U):
        return mku([(g, m_type(ip, (x,), k)) for g, x in o.alts if x is not UNBOUND])
    return type_of(ip, o)


@model(int)
def m_int(ip, a, k):
    if not a:
        return 0
    x = a[0]
    if isinstance(x, LP):
        u = lp_to_u(x)
        if u is None:
            raise Unsupported('int() of a symbolic real')
        x = u
    if isinstance(x, Q):
        raise Unsupported('int() of a symbolic ratio')
    if isinstance(x, NDArr) and x.a.size == 1:
        x = x.a.reshape(-1)[0]
    if isinstance(x, SB):
        return mku([(x.l, 1), (x.l ^ 1, 0)])
    if isinstance(x, U):
        out = []
        for g, v in x.alts:
            if v is UNBOUND:
                continue
            try:
                out.append((g, int(v, *a[1:]) if isinstance(v, str) else int(v)))
            except Exception as e:
                ip.raise_guarded(g, e)
        return mku(out)
    try:
        return int(x, *a[1:])
    except Exception as e:
        raise perr(e)


@model(float, np.float64)
def m_float(ip, a, k):
    x = a[0] if a else 0.0
    if isinstance(x, (LP, Q)):
        return x
    if isinstance(x, NDArr) and x.a.size == 1:
        return m_float(ip, (x.a.reshape(-1)[0],), {})
    if isinstance(x, (U, SB)):
        return mku([(g, m_float(ip, (v,), {})) for g, v in alts(x) if v is not UNBOUND])
    if isinstance(x, Fraction):
        return float(x)
    try:
        return float(x)
    except Exception as e:
        raise perr(e)


@model(bool)
def m_bool(ip, a, k):
    return mkb(truth(a[0])) if a else False


@model(str)
def m_str(ip, a, k):
    from .models import fmt, Text
    if not a:
        return ''
    if isinstance(a[0], Text):
        return a[0]
    return fmt(ip, a[0], 115, '')


@model(repr)
def m_repr(ip, a, k):
    from .models import fmt
    return fmt(ip, a[0], 114, '')


@model(format)
def m_format(ip, a, k):
    from .models import fmt
    return fmt(ip, a[0], -1, a[1] if len(a) > 1 else '')


@model(map)
def m_map(ip, a, k):
    f = a[0]
    if len(a) == 2:
        sl = [(s[0], s[1]) for s in ip.iter_slots(a[1])]
        args = [(g, (v,)) for g, v in sl]
    else:
        z = m_zip(ip, a[1:], {})
        args = [(s[0], s[1]) for s in z.slots]
    return SIter(map_slots(ip, f, args))


def map_slots(ip, f, args):
    out = []
    for g, t in args:
        if g == TRUE:
            out.append((g, ip.call(f, t)))
            continue
        base = ip.pc
        p, n = PC(base, g), PC(base, g ^ 1)
        if p.full == FALSE or ip.infeasible(p.full):
            continue
        ip.pc = p
        from .interp import Dead
        try:
            v = ip.guarded(lambda: ip.call(f, t))
            s = [(ip.pc, None)]
            out.append((g, v))
        except Dead:
            s = []
        ip.pc, _ = ip.join(base, s + [(n, None)])
        if ip.pc.full == FALSE:
            raise Dead()
    return out


@model(filter)
def m_filter(ip, a, k):
    f = a[0]
    sl = [(s[0], s[1]) for s in ip.iter_slots(a[1])]
    if f is None:
        return SIter([(ip.aig.AND(g, truth(v)), v) for g, v in sl])
    r = map_slots(ip, f, [(g, (v,)) for g, v in sl])
    if len(r) != len(sl):
        raise Unsupported('filter with dead slots')
    return SIter([(ip.aig.AND(g, truth(c)), v) for (g, v), (_, c) in zip(sl, r)])


@model(iter)
def m_iter(ip, a, k):
    if isinstance(a[0], SIter):
        return a[0]
    return SIter([(s[0], s[1]) for s in ip.iter_slots(a[0])])


def do_next(ip, o, dflt=UNBOUND):
    A = ip.aig
    if not isinstance(o, SIter):
        raise perr(TypeError('not an iterator'))
    avail = A.ORS(s[0] for s in o.slots)
    if dflt is UNBOUND:
        ip.raise_guarded(avail ^ 1, StopIteration())
    g = rel(ip.pc, o.pc)
    nf = TRUE
    out = []
    for s in o.slots:
        m = A.AND(nf, s[0])
        nf = A.AND(nf, s[0] ^ 1)
        if m == FALSE:
            continue
        out.append((m, s[1]))
        s[0] = A.AND(s[0], A.AND(g, m) ^ 1)
        if nf == FALSE:
            break
    o.slots = [s for s in o.slots if s[0] != FALSE]
    if dflt is not UNBOUND and nf != FALSE:
        out.append((nf, dflt))
    return mku(out)


@model(next)
def m_next(ip, a, k):
    return do_next(ip, a[0], *a[1:])


@model(getattr)
def m_getattr(ip, a, k):
    if isinstance(a[1], U):
        return ip.map_alts(a[1], lambda n: m_getattr(ip, (a[0], n) + tuple(a[2:]), k))
    if len(a) > 2:
        from .interp import PyErr
        try:
            return ip.getattr(a[0], a[1])
        except PyErr as e:
            if isinstance(e.exc, AttributeError):
                return a[2]
            raise
    return ip.getattr(a[0], a[1])


@model(setattr)
def m_setattr(ip, a, k):
    if isinstance(a[1], U):
        ip.map_alts(a[1], lambda n: ip.setattr(a[0], n, a[2]))
        return None
    ip.setattr(a[0], a[1], a[2])


@model(hasattr)
def m_hasattr(ip, a, k):
    from .interp import PyErr
    o = a[0]
    if isinstance(o, U):
        return ip.map_alts(o, lambda x: m_hasattr(ip, (x, a[1]), k))
    if isinstance(a[1], U):
        return ip.map_alts(a[1], lambda x: m_hasattr(ip, (o, x), k))
    if isinstance(o, SObj) and a[1] in o.d:
        v = o.d[a[1]]
        if isinstance(v, U) and any(x is UNBOUND for _, x in v.alts):
            return mkb(ip.aig.ORS(g for g, x in v.alts if x is UNBOUND) ^ 1)
        return v is not UNBOUND
    try:
        ip.getattr(o, a[1])
        return True
    except PyErr as e:
        if isinstance(e.exc, AttributeError):
            return False
        raise


@model(dir)
def m_dir(ip, a, k):
    o = a[0]
    if isinstance(o, SObj):
        names = set(o.d)
        for c in o.cls.__mro__:
            names |= set(c.__dict__)
        return SList([(TRUE, n) for n in sorted(names)])
    return ip.from_native(dir(o))


@model(vars)
def m_vars(ip, a, k):
    return ip.getattr(a[0], '__dict__')


@model(callable)
def m_callable(ip, a, k):
    from .interp import SFunc, SBound, SMethod
    o = a[0]
    if isinstance(o, (SFunc, SBound, SMethod)):
        return True
    if isinstance(o, SObj):
        return o.cls_has('__call__')
    return callable(o)


@model(id)
def m_id(ip, a, k):
    return id(a[0])


@model(slice)
def m_slice(ip, a, k):
    return slice(*a)


@model(divmod)
def m_divmod(ip, a, k):
    return (ip.binop('//', a[0], a[1]), ip.binop('%', a[0], a[1]))


@model(pow, math.pow)
def m_pow(ip, a, k):
    if len(a) == 3:
        return ip.binop('%', ip.binop('**', a[0], a[1]), a[2])
    return ip.binop('**', a[0], a[1])


@model(math.sqrt)
def m_sqrt(ip, a, k):
    x = a[0]
    if isinstance(x, (int, float)):
        try:
            return math.sqrt(x)
        except ValueError as e:
            raise perr(e)
    ip.raise_guarded(cmp_lit('<', x, 0), ValueError('math domain error'))
    return V.sqrt(x)


for _op, _s in (('add', '+'), ('sub', '-'), ('mul', '*'), ('truediv', '/'), ('floordiv', '//'), ('mod', '%')):
    M[id(getattr(operator, _op))] = (getattr(operator, _op),
                                     (lambda s: lambda ip, a, k: ip.binop(s, a[0], a[1]))(_s))


def _mkopaque(f):
    from .models import Opaque
    o = Opaque('fn')
    o.call = lambda ip, args, kw: f(ip, args)
    return o


@model(operator.itemgetter)
def m_itemgetter(ip, a, k):
    return _mkopaque(lambda ip2, b: ip2.getitem(b[0], a[0]) if len(a) == 1 else
                     tuple(ip2.getitem(b[0], i) for i in a))


@model(operator.attrgetter)
def m_attrgetter(ip, a, k):
    return _mkopaque(lambda ip2, b: ip2.getattr(b[0], a[0]))


@model(functools.reduce)
def m_reduce(ip, a, k):
    f = a[0]
    sl = [(s[0], s[1]) for s in ip.iter_slots(a[1])]
    if len(a) > 2:
        acc = a[2]
    else:
        sl = pos_slots(ip, SList(sl))
        if not sl:
            raise perr(TypeError('reduce() of empty iterable with no initial value'))
        ip.raise_guarded(sl[0][0] ^ 1, TypeError('reduce() of empty iterable with no initial value'))
        acc = sl[0][1]
        sl = sl[1:]
    for g, v in sl:
        if g == TRUE:
            acc = ip.call(f, (acc, v))
        else:
            r = map_slots(ip, f, [(g, (acc, v))])
            if r:
                acc = ite(g, r[0][1], acc)
    return acc


@model(functools.partial)
def m_partial(ip, a, k):
    f, fixed = a[0], tuple(a[1:])
    from .models import Opaque
    o = Opaque('partial')

    def call(ip2, args, kw):
        k2 = dict(k)
        k2.update(kw)
        return ip2.call(f, fixed + tuple(args), k2)
    o.call = call
    return o


def deepcopy(ip, x, memo):
    from . import mnp
    if isinstance(x, PRIM) or isinstance(x, (SB, LP, Q)):
        return x
    if id(x) in memo:
        return memo[id(x)][1]
    if isinstance(x, tuple):
        return tuple(deepcopy(ip, y, memo) for y in x)
    if isinstance(x, U):
        r = mku([(g, deepcopy(ip, y, memo)) for g, y in x.alts])
        return r
    if isinstance(x, SList):
        r = SList([], kind=x.kind)
        memo[id(x)] = (x, r)
        r.slots = [(g, deepcopy(ip, v, memo)) for g, v in x.slots]
        r.segs = list(x.segs) if x.segs else None
        return r
    if isinstance(x, SSet):
        return x.copy()
    if isinstance(x, SDict):
        r = SDict([[k, g, deepcopy(ip, v, memo)] for k, g, v in x.entries])
        r.default = x.default
        memo[id(x)] = (x, r)
        return r
    if isinstance(x, NDArr):
        r = NDArr(x.a.copy(), x.dt)
        memo[id(x)] = (x, r)
        return r
    if isinstance(x, mnp.SpMat):
        return x.copy()
    if isinstance(x, SObj):
        if x.cls_has('__deepcopy__'):
            return ip.call(ip.getattr(x, '__deepcopy__'), (SDict(),))
        r = SObj(x.cls)
        memo[id(x)] = (x, r)
        for k, v in x.d.items():
            r.d[k] = deepcopy(ip, v, memo)
        return r
    return x


@model(copymod.deepcopy)
def m_deepcopy(ip, a, k):
    return deepcopy(ip, a[0], {})


@model(copymod.copy)
def m_copy(ip, a, k):
    from . import mnp
    x = a[0]
    if isinstance(x, U):
        return mku([(g, m_copy(ip, (y,), k)) for g, y in x.alts])
    if isinstance(x, SList) and x.kind == 'list':
        return x.copy()
    if isinstance(x, SSet):
        return x.copy()
    if isinstance(x, SDict):
        return mseq.dict_method(ip, x, 'copy', (), {})
    if isinstance(x, NDArr):
        return NDArr(x.a.copy(), x.dt)
    if isinstance(x, mnp.SpMat):
        return x.copy()
    if isinstance(x, SObj):
        r = SObj(x.cls)
        r.d.update(x.d)
        return r
    return x


# ------------------------------------------------------------------ itertools
@model(itertools.combinations)
def m_comb(ip, a, k):
    A = ip.aig
    r = a[1]
    if isinstance(r, (U, SB)):
        out = []
        for g, n in feasible_alts(r):
            out.extend((A.AND(g, s[0]), s[1]) for s in m_comb(ip, (a[0], n), {}).slots)
        return SIter(out)
    sl = [(s[0], s[1]) for s in ip.iter_slots(a[0])]
    if r < 0:
        raise perr(ValueError('r must be non-negative'))
    n = len(sl)
    if math.comb(n, r) > 20000:
        raise Unsupported('too many combinations')
    if all(g == TRUE for g, _ in sl):
        return SIter([(TRUE, tuple(v for _, v in c)) for c in itertools.combinations(sl, r)])
    # combinations of a subsequence, in order of slots = lexicographic in positions
    return SIter([x for x in ((A.ANDS(g for g, _ in c), tuple(v for _, v in c))
                              for c in itertools.combinations(sl, r)) if x[0] != FALSE])


@model(itertools.permutations)
def m_perm(ip, a, k):
    sl = [(s[0], s[1]) for s in ip.iter_slots(a[0])]
    r = a[1] if len(a) > 1 else None
    if not all(g == TRUE for g, _ in sl):
        if r is None:
            raise Unsupported('permutations of a symbolic sequence')
    A = ip.aig
    return SIter([(A.ANDS(g for g, _ in c), tuple(v for _, v in c)) for c in itertools.permutations(sl, r)])


@model(itertools.product)
def m_product(ip, a, k):
    rep = k.get('repeat', 1)
    cols = [[(s[0], s[1]) for s in ip.iter_slots(x)] for x in a] * rep
    A = ip.aig
    n = 1
    for c in cols:
        n *= len(c)
    if n > 50000:
        raise Unsupported('product too large')
    return SIter([x for x in ((A.ANDS(g for g, _ in c), tuple(v for _, v in c)) for c in itertools.product(*cols))
                  if x[0] != FALSE])


@model(itertools.chain)
def m_chain(ip, a, k):
    out = []
    for x in a:
        out.extend((s[0], s[1]) for s in ip.iter_slots(x))
    return SIter(out)


@model(itertools.chain.from_iterable)
def m_chainf(ip, a, k):
    out = []
    A = ip.aig
    for s in ip.iter_slots(a[0]):
        out.extend((A.AND(s[0], t[0]), t[1]) for t in ip.iter_slots(s[1]))
    return SIter(out)


@model(itertools.accumulate)
def m_accum(ip, a, k):
    sl = pos_slots(ip, a[0])
    f = a[1] if len(a) > 1 else None
    out, acc = [], None
    for i, (g, v) in enumerate(sl):
        acc = v if i == 0 else (ip.binop('+', acc, v) if f is None else ip.call(f, (acc, v)))
        out.append((g, acc))
    return SIter(out)


@model(itertools.islice)
def m_islice(ip, a, k):
    sl = pos_slots(ip, a[0])
    return SIter(sl[slice(*a[1:])])


@model(itertools.repeat)
def m_repeat(ip, a, k):
    if len(a) < 2:
        raise Unsupported('infinite repeat')
    return SIter([(TRUE, a[0])] * a[1])


@model(itertools.count)
def m_count(ip, a, k):
    s = a[0] if a else 0
    return SIter([(TRUE, s + i) for i in range(400)])


def written(f, g, wrap=None):
    """library function interpreted from sym/pylib.py"""
    def h(ip, a, k):
        if all(ip.conc(x) for x in a) and all(ip.conc(x) for x in k.values()):
            from .models import native_once
            if f not in ITER:
                return native_once(ip, f, a, k)
        r = ip.call(g, a, k)
        if f in ITER:
            return ip.map_alts(r, lambda x: SIter(ip.iter_slots(x))) if isinstance(r, U) else SIter(ip.iter_slots(r))
        return r
    model(f)(h)


ITER = (itertools.pairwise, itertools.zip_longest, itertools.starmap, itertools.takewhile, itertools.dropwhile,
        itertools.filterfalse, itertools.compress, itertools.groupby)
for _f in ITER:
    written(_f, getattr(pylib, _f.__name__))
for _f in (math.prod, math.fsum, math.dist, operator.concat, operator.countOf, operator.indexOf, operator.contains):
    written(_f, getattr(pylib, _f.__name__))


@model(dict.fromkeys)
def m_fromkeys(ip, a, k):
    return ip.call(pylib.fromkeys, a, k)


@model(collections.deque)
def m_deque(ip, a, k):
    if k or len(a) > 1:
        raise Unsupported('deque with a length limit')
    return ip.call(list, a, {})


@model(bisect.bisect_left)
def m_bl(ip, a, k):
    A = ip.aig
    return count_u([A.AND(g, cmp_lit('<', v, a[1])) for g, v in [(s[0], s[1]) for s in ip.iter_slots(a[0])]])


@model(bisect.bisect, bisect.bisect_right)
def m_br(ip, a, k):
    A = ip.aig
    return count_u([A.AND(g, cmp_lit('<=', v, a[1])) for g, v in [(s[0], s[1]) for s in ip.iter_slots(a[0])]])


@model(bisect.insort, bisect.insort_right)
def m_insort(ip, a, k):
    mseq.list_insert(ip, a[0], m_br(ip, (a[0], a[1]), {}), a[1])


# ------------------------------------------------------------------ io
@model(time.time, time.perf_counter, time.process_time)
def m_time(ip, a, k):
    return 0.0


def vpath(p):
    if not isinstance(p, str):
        raise Unsupported('file path of type %s' % type(p).__name__)
    return os.path.normpath(p)


def vdirs(ip):
    return ip.vfs.setdefault('dirs', {'.': TRUE, '': TRUE, '/': TRUE})


def no_file(ip, g):
    if g != FALSE:
        ip.raise_guarded(g, FileNotFoundError('no such file or directory'))


@model(os.mkdir)
def m_mkdir(ip, a, k):
    A = ip.aig
    d = vdirs(ip)
    for h, p in alts(a[0] if a else k['path']):
        p = vpath(p)
        g = A.AND(ip.pc.full, h)
        no_file(ip, A.AND(h, d.get(os.path.dirname(p), FALSE) ^ 1))
        there = A.AND(h, d.get(p, FALSE))
        if there != FALSE:
            ip.raise_guarded(there, FileExistsError('file exists'))
        d[p] = A.OR(d.get(p, FALSE), g)


@model(os.makedirs)
def m_makedirs(ip, a, k):
    A = ip.aig
    d = vdirs(ip)
    ok = k.get('exist_ok', False)
    for h, p in alts(a[0] if a else k['name']):
        p = vpath(p)
        there = A.AND(h, d.get(p, FALSE))
        if there != FALSE and ok is not True:
            ip.raise_guarded(there, FileExistsError('file exists'))
        g = A.AND(ip.pc.full, h)
        while p not in ('', '.', '/'):
            d[p] = A.OR(d.get(p, FALSE), g)
            p = os.path.dirname(p)


def vfiles(ip, path):
    """[(guard, record)] of the last file written at the path"""
    A = ip.aig
    out, free = [], TRUE
    for rec in reversed(ip.vfs.get('files', [])):
        if rec['path'] == path:
            out.append((A.AND(free, rec['g']), rec))
            free = A.AND(free, rec['g'] ^ 1)
    return out, free


@model(os.path.exists, os.path.isfile)
def m_exists(ip, a, k):
    A = ip.aig
    r = FALSE
    for h, p in alts(a[0]):
        f, free = vfiles(ip, vpath(p))
        r = A.OR(r, A.AND(h, A.OR(free ^ 1, vdirs(ip).get(vpath(p), FALSE))))
    return mkb(r)


@model(os.path.isdir)
def m_isdir(ip, a, k):
    A = ip.aig
    return mkb(A.ORS(A.AND(h, vdirs(ip).get(vpath(p), FALSE)) for h, p in alts(a[0])))


@model(open)
def m_open(ip, a, k):
    from .models import Opaque
    A = ip.aig
    mode = a[1] if len(a) > 1 else k.get('mode', 'r')
    if mode not in ('w', 'r', 'wt', 'rt', 'x'):
        raise Unsupported('file mode %r' % (mode,))
    vfs = ip.vfs
    names = [(h, vpath(p)) for h, p in alts(a[0])]
    if mode[0] != 'r':
        d = vdirs(ip)
        no_file(ip, A.ORS(A.AND(h, d.get(os.path.dirname(p), FALSE) ^ 1) for h, p in names))
        parts = []
        for h, p in names:
            if A.AND(ip.pc.full, h) != FALSE:
                vfs.setdefault('files', []).append({'path': p, 'g': A.AND(ip.pc.full, h), 'parts': parts})

        def write(ip2, x):
            parts.append((ip2.pc.full, x))
        return Opaque('file', {'write': write, 'close': lambda ip2: None})
    found, miss = {}, []
    for h, p in names:
        fs, free = vfiles(ip, p)
        miss.append(A.AND(h, free))
        for g, rec in fs:
            if A.AND(g, h) != FALSE:
                found.setdefault(id(rec['parts']), [rec, []])[1].append(A.AND(g, h))
    no_file(ip, A.ORS(miss))
    vfs.setdefault('reads', []).append((ip.pc.full, mku(names)))

    def read(ip2):
        out = []
        for rec, gs in found.values():
            ps = rec['parts']
            if not ps:
                x = ''
            elif len(ps) == 1:
                x = ps[0][1]
            elif all(isinstance(y, str) for _, y in ps):
                x = ''.join(y for _, y in ps)
            else:
                raise Unsupported('file written in several parts')
            out.append((A.ORS(gs), x))
        return mku(out)
    return Opaque('file', {'read': read, 'close': lambda ip2: None})


def jnorm(ip, x):
    """JSON normal form: what json.loads(json.dumps(x)) gives"""
    from . import mnp
    if x is None or isinstance(x, (bool, int, float, str, SB, LP, Q, Fraction)):
        return x
    if isinstance(x, U):
        return mku([(g, jnorm(ip, y)) for g, y in x.alts])
    if isinstance(x, tuple):
        return SList([(TRUE, jnorm(ip, y)) for y in x])
    if isinstance(x, SList):
        r = SList([(g, jnorm(ip, y)) for g, y in x.slots])
        r.segs = list(x.segs) if x.segs else None
        return r
    if isinstance(x, SDict):
        r = SDict()
        for k, g, v in x.entries:
            for h, kk in alts(k):
                if not isinstance(kk, (str, int, float, bool, type(None))):
                    raise perr(TypeError('keys must be str, int, float, bool or None'))
                if kk is True or kk is False:
                    kk = 'true' if kk else 'false'
                r.set(kk if isinstance(kk, str) else 'null' if kk is None else repr(kk), jnorm(ip, v), ip.aig.AND(g, h))
        return r
    raise perr(TypeError('Object of type %s is not JSON serializable' % type_of(ip, x).__name__))


@model(json.dumps)
def m_dumps(ip, a, k):
    from .models import JText
    return JText(jnorm(ip, a[0]))


@model(json.loads)
def m_loads(ip, a, k):
    from .models import JText
    if isinstance(a[0], JText):
        return deepcopy(ip, a[0].v, {})
    if isinstance(a[0], U):
        return ip.map_alts(a[0], lambda x: m_loads(ip, (x,), k))
    if isinstance(a[0], str):
        return ip.from_native(json.loads(a[0]))
    raise perr(TypeError('the JSON object must be str'))


@model(json.dump)
def m_dump(ip, a, k):
    from .models import JText, call_method
    call_method(ip, a[1], 'write', (JText(jnorm(ip, a[0])),), {})


@model(json.load)
def m_load(ip, a, k):
    from .models import call_method
    return m_loads(ip, (call_method(ip, a[0], 'read', (), {}),), {})


try:
    from scipy.special import comb as _comb
    M[id(_comb)] = (_comb, lambda ip, a, k: m_scomb(ip, a, k))
except ImportError:
    pass


def m_scomb(ip, a, k):
    n, r = a[0], a[1]
    if k.get('repetition'):
        raise Unsupported('comb with repetition')
    exact = k.get('exact', a[2] if len(a) > 2 else False)
    out = []
    for g, x in alts(n):
        for h, y in alts(r):
            gh = ip.aig.AND(g, h)
            if gh != FALSE and x is not UNBOUND and y is not UNBOUND:
                v = math.comb(int(x), int(y)) if 0 <= y <= x else 0
                out.append((gh, v if exact else float(v)))
    return mku(out)


@model(math.comb)
def m_mcomb(ip, a, k):
    return m_scomb(ip, a, {'exact': True})
