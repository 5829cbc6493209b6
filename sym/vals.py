"""Symbolic values: SB (bool), U (guarded union), LP (guarded polynomial), containers."""
from fractions import Fraction
import numbers
import operator
import z3
from .aig import FALSE, TRUE


class Unsupported(Exception):
    pass


class _St:
    aig = None        # current Aig
    pc = None         # current path condition (PC)
    ip = None


st = _St()
PRIM = (int, float, str, bool, type(None), Fraction, complex, bytes)


class PC:
    __slots__ = ('parent', 'lit', 'full', 'depth')

    def __init__(self, parent, lit):
        self.parent = parent
        self.lit = lit
        if parent is None:
            self.full, self.depth = lit, 0
        else:
            self.full, self.depth = st.aig.AND(parent.full, lit), parent.depth + 1


def rel(cur, base):
    """guard of cur relative to base (sound given base holds)"""
    if cur is base or base is None:
        return TRUE if base is not None else cur.full
    a, b = cur, base
    while b.depth > a.depth:
        b = b.parent
    lits = []
    while a.depth > b.depth:
        lits.append(a.lit)
        a = a.parent
    while a is not b:
        lits.append(a.lit)
        a, b = a.parent, b.parent
        if a is None or b is None:
            return cur.full
    r = TRUE
    A = st.aig.AND
    for l in reversed(lits):
        r = A(r, l)
    return r


class _Unbound:
    def __repr__(self):
        return '<unbound>'


UNBOUND = _Unbound()


def pkey(v):
    """identity key of an alternative"""
    if isinstance(v, PRIM):
        return (type(v).__name__, v) if v == v else ('nan', id(v))
    if isinstance(v, tuple):
        if all(isinstance(x, PRIM) for x in v):
            return ('t', tuple(pkey(x) for x in v))
    return ('o', id(v))


class SB:
    __slots__ = ('l',)
    __hash__ = object.__hash__

    def __init__(self, l):
        self.l = l

    def __and__(self, o):
        return mkb(st.aig.AND(self.l, truth(o))) if isbool(o) else num_op('and', self, o)

    def __or__(self, o):
        return mkb(st.aig.OR(self.l, truth(o))) if isbool(o) else num_op('or', self, o)

    __rand__, __ror__ = __and__, __or__

    def __xor__(self, o):
        return mkb(st.aig.XOR(self.l, truth(o)))

    def __eq__(self, o):
        return mkb(eq(self, o))

    def __ne__(self, o):
        return mkb(eq(self, o) ^ 1)

    def __bool__(self):
        raise Unsupported('bool() of a symbolic value by native code')


def isbool(x):
    return isinstance(x, (bool, SB))


def mkb(l):
    return False if l == FALSE else True if l == TRUE else SB(l)


class U:
    """guarded union; alternatives are pairwise exclusive and exhaustive under the pc
    in which the value is used"""
    __slots__ = ('alts',)
    __hash__ = object.__hash__

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return 'U(%s)' % ', '.join('%r:%d' % (v, g) for g, v in self.alts[:6])

    def __eq__(self, o):
        return mkb(eq(self, o))

    def __ne__(self, o):
        return mkb(eq(self, o) ^ 1)

    def __bool__(self):
        raise Unsupported('bool() of a symbolic value by native code')

    def __iter__(self):
        raise Unsupported('native iteration over a symbolic value')

    def __index__(self):
        raise Unsupported('native index of a symbolic value')

    def __len__(self):
        raise Unsupported('native len of a symbolic value')


def mku(pairs):
    """build a union from (guard, value), flattening, merging and dropping FALSE"""
    A = st.aig
    d = {}
    hasnum = False
    todo = list(pairs)
    out = []
    for g, v in todo:
        if g == FALSE:
            continue
        if isinstance(v, U):
            out.extend((A.AND(g, h), w) for h, w in v.alts)
        elif isinstance(v, SB):
            out.append((A.AND(g, v.l), True))
            out.append((A.AND(g, v.l ^ 1), False))
        else:
            out.append((g, v))
    lps = [v for g, v in out if isinstance(v, (LP, Q)) and g != FALSE]
    if lps:
        rest = [(g, v) for g, v in out if not isinstance(v, (LP, Q)) and g != FALSE]
        if all(isinstance(v, (int, float, Fraction)) for _, v in rest):
            if any(isinstance(v, Q) for v in lps):
                r = None
                for g, v in out:
                    if g == FALSE:
                        continue
                    r = v if r is None else ite(g, v, r)
                return r
            acc = LP({})
            for g, v in out:
                if g != FALSE:
                    acc = acc + tolp(v).guard(g)
            return acc
    for g, v in out:
        if g == FALSE:
            continue
        k = pkey(v)
        o = d.get(k)
        if o is None:
            d[k] = [g, v]
        else:
            o[0] = A.OR(o[0], g)
    if len(d) == 1:
        return next(iter(d.values()))[1]
    if not d:
        return UNBOUND
    if len(d) == 2 and all(isinstance(x[1], bool) for x in d.values()):
        for g, v in d.values():
            if v is True:
                return mkb(g)
    if len(d) > 1 and all(isinstance(x[1], tuple) for x in d.values()):
        n = {len(x[1]) for x in d.values()}
        if len(n) == 1:
            (n,) = n
            vals = [x for x in d.values()]
            return like([v for _, v in vals], [mku([(g, v[i]) for g, v in vals]) for i in range(n)])
    return U([(g, v) for g, v in d.values()])


def alts(v):
    """alternatives of any value as [(guard, concrete-or-ref)]"""
    if isinstance(v, U):
        return v.alts
    if isinstance(v, SB):
        return [(v.l, True), (v.l ^ 1, False)]
    if isinstance(v, LP):
        u = lp_to_u(v)
        if u is not None:
            return alts(u)
    return [(TRUE, v)]


def feasible_alts(v, pc=None):
    pc = pc or st.pc
    r = []
    for g, x in alts(v):
        if not st.aig.infeasible(st.aig.AND(pc.full, g)):
            r.append((g, x))
    return r


def prune(v):
    if isinstance(v, U):
        a = feasible_alts(v)
        if len(a) == 1:
            return a[0][1]
        if not a:
            return v
        if len(a) < len(v.alts):
            return mku(a)
    return v


# ---------------------------------------------------------------------------- polynomials
def joined(r):
    """c [g] m + d [not g] m  ->  d m + (c - d) [g] m"""
    for m, g in [k for k in r if k[1] != TRUE and not k[1] & 1]:
        o = (m, g ^ 1)
        if o in r:
            c, d = r.pop((m, g)), r.pop(o)
            k = (m, TRUE)
            n = r.get(k, 0) + d
            if n:
                r[k] = n
            else:
                r.pop(k, None)
            if c != d:
                r[(m, g)] = c - d
    return r


class LP:
    """sum of coef * [guard] * monomial; coef Fraction, monomial tuple of real-variable names"""
    __slots__ = ('t',)
    __hash__ = object.__hash__

    def __init__(self, t):
        self.t = t

    def guard(self, g):
        if g == TRUE:
            return self
        if g == FALSE:
            return LP({})
        A = st.aig.AND
        r = {}
        for (m, h), c in self.t.items():
            k = (m, A(g, h))
            if k[1] != FALSE:
                r[k] = r.get(k, 0) + c
        return LP(r)

    def isconst(self):
        if not self.t:
            return True
        return len(self.t) == 1 and ((), TRUE) in self.t

    def const(self):
        return self.t.get(((), TRUE), Fraction(0))

    def noreal(self):
        return all(not m for m, _ in self.t)

    def __add__(self, o):
        if isinstance(o, Q):
            return Q(self, LPONE) + o
        o = tolp(o)
        if o is None:
            return NotImplemented
        r = dict(self.t)
        for k, c in o.t.items():
            n = r.get(k, 0) + c
            if n:
                r[k] = n
            else:
                r.pop(k, None)
        return LP(r)

    __radd__ = __add__

    def __neg__(self):
        return LP({k: -c for k, c in self.t.items()})

    def __sub__(self, o):
        if isinstance(o, Q):
            return Q(self, LPONE) - o
        o = tolp(o)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, Q):
            return Q(self, LPONE) * o
        if isinstance(o, LP) is False and isinstance(o, (int, float, Fraction)):
            c0 = tofrac(o)
            if c0 == 0:
                return LP({})
            return LP({k: c * c0 for k, c in self.t.items()})
        o = tolp(o)
        if o is None:
            return NotImplemented
        if len(self.t) * len(o.t) > 2000000:
            raise Unsupported('polynomial too large')
        A = st.aig.AND
        r = {}
        extra = None
        for (m1, g1), c1 in self.t.items():
            for (m2, g2), c2 in o.t.items():
                g = A(g1, g2)
                if g == FALSE:
                    continue
                m = tuple(sorted(m1 + m2)) if m1 and m2 else (m1 or m2)
                m, sub = reduce_mono(m)
                if sub is not None:
                    e = sub * LP({(m, g): c1 * c2})
                    extra = e if extra is None else extra + e
                    continue
                k = (m, g)
                n = r.get(k, 0) + c1 * c2
                if n:
                    r[k] = n
                else:
                    r.pop(k, None)
        r = LP(joined(r))
        return r + extra if extra is not None else r

    __rmul__ = __mul__

    def __pow__(self, n):
        if isinstance(n, float) and n == int(n):
            n = int(n)
        if not isinstance(n, int) or n < 0:
            raise Unsupported('polynomial power %r' % (n,))
        r = LPONE
        for _ in range(n):
            r = r * self
        return r

    def __truediv__(self, o):
        return div(self, o)

    def __rtruediv__(self, o):
        return div(o, self)

    def __abs__(self):
        c = cmp_lit('>=', self, 0)
        return ite(c, self, -self)

    def conjugate(self):
        return self

    def __eq__(self, o):
        return mkb(eq(self, o))

    def __ne__(self, o):
        return mkb(eq(self, o) ^ 1)

    def __lt__(self, o):
        return mkb(cmp_lit('<', self, o))

    def __le__(self, o):
        return mkb(cmp_lit('<=', self, o))

    def __gt__(self, o):
        return mkb(cmp_lit('>', self, o))

    def __ge__(self, o):
        return mkb(cmp_lit('>=', self, o))

    def __bool__(self):
        raise Unsupported('bool() of a symbolic number by native code')

    def __float__(self):
        if self.isconst():
            return float(self.const())
        raise Unsupported('float() of a symbolic number by native code')

    def __repr__(self):
        return 'LP(%d terms)' % len(self.t)


SQRT = {}     # sqrt variable name -> LP radicand


def reduce_mono(m):
    """r*r -> radicand for sqrt variables"""
    for i in range(len(m) - 1):
        if m[i] == m[i + 1] and m[i] in SQRT:
            return m[:i] + m[i + 2:], SQRT[m[i]]
    return m, None


def tofrac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported('non-finite float in symbolic arithmetic')
        f = Fraction(x)
        if f.denominator > (1 << 40):
            # nearest small rational of a decimal literal such as 0.1 (documented: reals model)
            g = Fraction(repr(x))
            return g
        return f
    raise Unsupported('not a number: %r' % (x,))


LPONE = LP({((), TRUE): Fraction(1)})


def lpconst(c):
    c = tofrac(c)
    return LP({((), TRUE): c}) if c else LP({})


def tolp(v):
    if isinstance(v, LP):
        return v
    if isinstance(v, (int, float, Fraction)):
        return lpconst(v)
    if hasattr(v, 'dtype') and hasattr(v, 'item') and getattr(v, 'shape', None) == ():
        return lpconst(v.item())
    if isinstance(v, SB):
        return LP({((), v.l): Fraction(1)})
    if isinstance(v, U):
        r = LP({})
        for g, x in v.alts:
            if x is UNBOUND:
                continue
            y = tolp(x)
            if y is None:
                return None
            r = r + y.guard(g)
        return r
    return None


def simp_lp(v):
    return v


class Q:
    """ratio of two polynomials (den not identically zero)"""
    __slots__ = ('n', 'd')
    __hash__ = object.__hash__

    def __init__(self, n, d):
        self.n, self.d = n, d

    @staticmethod
    def of(x):
        if isinstance(x, Q):
            return x
        return Q(tolp(x), LPONE)

    def __add__(self, o):
        o = Q.of(o)
        if o.n is None:
            return NotImplemented
        if o.d.t == self.d.t:
            return Q(self.n + o.n, self.d)
        if o.d.t == LPONE.t:
            return Q(self.n + o.n * self.d, self.d)
        if self.d.t == LPONE.t:
            return Q(self.n * o.d + o.n, o.d)
        return Q(self.n * o.d + o.n * self.d, self.d * o.d)

    __radd__ = __add__

    def __neg__(self):
        return Q(-self.n, self.d)

    def __sub__(self, o):
        return self + (-Q.of(o))

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        o = Q.of(o)
        if o.n is None:
            return NotImplemented
        if o.n.t == self.d.t:
            return Q(self.n, o.d) if o.d.t != LPONE.t else self.n
        if self.n.t == o.d.t:
            return Q(o.n, self.d)
        return Q(self.n * o.n, self.d * o.d)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return div(self, o)

    def __rtruediv__(self, o):
        return div(o, self)

    def __pow__(self, n):
        n = int(n)
        return Q(self.n ** n, self.d ** n)

    def __abs__(self):
        c = cmp_lit('>=', self, 0)
        return ite(c, self, -self)

    def guard(self, g):
        return Q(self.n.guard(g), self.d)

    def __eq__(self, o):
        return mkb(eq(self, o))

    def __ne__(self, o):
        return mkb(eq(self, o) ^ 1)

    def __lt__(self, o):
        return mkb(cmp_lit('<', self, o))

    def __le__(self, o):
        return mkb(cmp_lit('<=', self, o))

    def __gt__(self, o):
        return mkb(cmp_lit('>', self, o))

    def __ge__(self, o):
        return mkb(cmp_lit('>=', self, o))

    def __bool__(self):
        raise Unsupported('bool() of a symbolic ratio')


def div(a, b):
    """a / b for numbers, unions, polynomials (zero divisor handled by the caller)"""
    if isinstance(b, (int, float, Fraction)) and not isinstance(a, (U, SB)):
        if b == 0:
            raise ZeroDivisionError('division by zero')
        if isinstance(a, (int, float)) and not isinstance(b, Fraction):
            return a / b
        if isinstance(a, Fraction):
            return a / tofrac(b)
        if isinstance(a, Q):
            return Q(a.n * (1 / tofrac(b)), a.d)
        return a * (1 / tofrac(b))
    if isinstance(a, (U, SB)) and isinstance(b, (int, float, Fraction)):
        return num_op('/', a, b)
    if isinstance(b, U) and not isinstance(a, (LP, Q)):
        return num_op('/', a, b)
    if isinstance(b, U):
        return mku([(g, div(a, x)) for g, x in b.alts if x != 0])
    qa, qb = Q.of(a), Q.of(b)
    n, d = qa.n * qb.d, qa.d * qb.n
    if d.isconst() and d.const() != 0:
        return n * (1 / d.const())
    if n.t == d.t:
        return lpconst(1)
    if len(n.t) == len(d.t) > 0 and n.t.keys() == d.t.keys():
        r = {tofrac(n.t[k]) / tofrac(d.t[k]) for k in d.t}
        if len(r) == 1:
            r = r.pop()
            return float(r) if Fraction(float(r)) == r else r
    if not n.t:
        return 0.0
    return Q(n, d)


# ---------------------------------------------------------------------------- PB / arithmetic atoms
def _eval_mono(m, i):
    v = Fraction(1)
    for x in m:
        v *= real_sample(x, i)
    return v


def real_sample(name, i):
    return st.aig.real_samples[name][i]


def lp_eval_samples(lp):
    A = st.aig
    K = A.K
    out = [Fraction(0)] * K
    mc = {}
    for (m, g), c in lp.t.items():
        s = A.lsig(g)
        if m:
            vals = mc.get(m)
            if vals is None:
                vals = mc[m] = [_eval_mono(m, i) for i in range(K)]
            i = 0
            while s:
                if s & 1:
                    out[i] += c * vals[i]
                s >>= 1
                i += 1
        else:
            i = 0
            while s:
                if s & 1:
                    out[i] += c
                s >>= 1
                i += 1
    return out


def pb_states(lp, cap=700):
    """DP over terms: partial sum -> guard; None when more than cap sums"""
    A = st.aig
    S = {Fraction(0): TRUE}
    bases = Fraction(0)
    items = []
    for (m, g), c in lp.t.items():
        if g == TRUE:
            bases += c
        else:
            items.append((g, c))
    S = {bases: TRUE}
    # order: group terms that are structurally exclusive near each other
    items.sort(key=lambda x: (x[0]))
    for g, c in items:
        N = {}
        for s, h in S.items():
            a = A.AND(h, g)
            b = A.AND(h, g ^ 1)
            if a != FALSE:
                k = s + c
                N[k] = A.OR(N[k], a) if k in N else a
            if b != FALSE:
                N[s] = A.OR(N[s], b) if s in N else b
        S = N
        if len(S) > cap:
            return None
        if len(S) > 24:
            S = {k: h for k, h in S.items() if (A.lsig(h) & A.valid) or not A.infeasible(h)}
    return S


_lpu = {}


def lp_index(lp):
    u = lp_to_u(lp)
    if u is None:
        raise Unsupported('index with too many values' if lp.noreal() else 'real number as an index')
    return u


def lp_to_u(lp, cap=3000):
    if not lp.noreal():
        return None
    if len(lp.t) > 3000:
        return None
    S = pb_states(lp, cap)
    if S is None:
        return None
    return mku([(g, int(s) if s.denominator == 1 else s) for s, g in S.items()])


def lp_z3(lp):
    A = st.aig
    terms = []
    for (m, g), c in lp.t.items():
        e = z3.RealVal(str(c))
        if A.linear and len(m) > 1:
            e = e * A.mono(m)
        else:
            for x in m:
                e = e * z3.Real(x)
        if g != TRUE:
            e = z3.If(A.z(g), e, z3.RealVal(0))
        terms.append(e)
    return z3.Sum(terms) if terms else z3.RealVal(0)


def _atom(op, lp):
    """lit of (lp op 0), op in '==','<=','<'"""
    A = st.aig
    if lp.isconst():
        c = lp.const()
        return TRUE if {'==': c == 0, '<=': c <= 0, '<': c < 0}[op] else FALSE
    key = (op, frozenset(lp.t.items()))
    if ('atom', key) in A.table:
        return A.table[('atom', key)]
    if lp.noreal():
        if len(lp.t) <= 160:
            S = pb_states(lp, 400)
            if S is not None:
                r = FALSE
                for s, g in S.items():
                    if {'==': s == 0, '<=': s <= 0, '<': s < 0}[op]:
                        r = A.OR(r, g)
                A.table[('atom', key)] = r
                return r
        den = 1
        for c in lp.t.values():
            den = den * c.denominator // __import__('math').gcd(den, c.denominator)
        ts = [(g, int(c * den)) for (m, g), c in lp.t.items()]

        def zf():
            k = sum(c for g, c in ts if g == TRUE)
            args = [(A.z(g), c) for g, c in ts if g != TRUE]
            # make coefficients positive
            pos, off = [], k
            for e, c in args:
                if c >= 0:
                    pos.append((e, c))
                else:
                    pos.append((z3.Not(e), -c))
                    off += c
            if op == '==':
                return z3.PbEq(pos, -off)
            if op == '<=':
                return z3.PbLe(pos, -off)
            return z3.PbLe(pos, -off - 1)
        hasreal = False
        A.pbinfo[('atom', key)] = (op, ts)
    else:
        def zf():
            e = lp_z3(lp)
            return e == 0 if op == '==' else e <= 0 if op == '<=' else e < 0
        hasreal = True

    def sf():
        s = 0
        for i, v in enumerate(lp_eval_samples(lp)):
            if {'==': v == 0, '<=': v <= 0, '<': v < 0}[op]:
                s |= 1 << i
        return s
    return A.atom(key, zf, sf, hasreal)


def poly_zero_lit(lp):
    """lit saying that lp is the zero polynomial in its real variables
    (exact when those reals range over an open set)"""
    A = st.aig
    by = {}
    for (m, g), c in lp.t.items():
        by.setdefault(m, {})[((), g)] = c
    r = TRUE
    for m, t in by.items():
        r = A.AND(r, _atom('==', LP(t)))
    return r


def cmp_lit(op, a, b):
    """literal for a op b on numbers"""
    A = st.aig
    if op == '>':
        return cmp_lit('<', b, a)
    if op == '>=':
        return cmp_lit('<=', b, a)
    if isinstance(a, Q) or isinstance(b, Q):
        d = Q.of(a) - Q.of(b)
        # multiply by den^2 (positive)
        return _atom(op, d.n * d.d)
    if isinstance(a, LP) or isinstance(b, LP):
        la, lb = tolp(a), tolp(b)
        if la is None or lb is None:
            raise Unsupported('comparison of %r and %r' % (type(a), type(b)))
        return _atom(op, la - lb)
    f = operator.lt if op == '<' else operator.le
    r = FALSE
    for g, x in alts(a):
        if x is UNBOUND:
            continue
        for h, y in alts(b):
            if y is UNBOUND:
                continue
            gh = A.AND(g, h)
            if gh == FALSE:
                continue
            if isinstance(x, PRIM) and isinstance(y, PRIM):
                try:
                    t = TRUE if f(x, y) else FALSE
                except TypeError:
                    if A.infeasible(A.AND(st.pc.full, gh)):
                        continue
                    raise
            else:
                t = cmp_any(op, x, y)
            if t == TRUE:
                r = A.OR(r, gh)
            elif t != FALSE:
                r = A.OR(r, A.AND(gh, t))
    return r


def cmp_any(op, x, y):
    if isinstance(x, (LP, Q)) or isinstance(y, (LP, Q)):
        return cmp_lit(op, x, y)
    if isinstance(x, SSet) and isinstance(y, SSet):
        r = x.subset_lit(y)
        return r if op == '<=' else st.aig.AND(r, eq(x, y) ^ 1)
    xs, ys = seqitems(x), seqitems(y)
    if (xs is None or ys is None) and isinstance(x, SList) and isinstance(y, SList):
        return cmp_open(op, x, y)
    if xs is None or ys is None:
        raise Unsupported('ordering comparison of %s and %s' % (type(x), type(y)))
    A = st.aig
    # lexicographic
    r = FALSE
    eqp = TRUE
    for i in range(min(len(xs), len(ys))):
        if eqp == FALSE:
            break
        try:
            r = A.OR(r, A.AND(eqp, cmp_lit('<', xs[i], ys[i])))
        except (Unsupported, TypeError):
            if not A.infeasible(A.AND(st.pc.full, eqp)):
                raise
            break
        eqp = A.AND(eqp, eq(xs[i], ys[i]))
    if len(xs) < len(ys) or (len(xs) == len(ys) and op == '<='):
        r = A.OR(r, eqp)
    return r


def cmp_open(op, x, y):
    """lexicographic comparison of lists of symbolic length"""
    A = st.aig
    a, b = x.compact_slots(), y.compact_slots()
    r = FALSE
    same = TRUE
    for i in range(max(len(a), len(b))):
        ga, u = a[i] if i < len(a) else (FALSE, None)
        gb, v = b[i] if i < len(b) else (FALSE, None)
        r = A.OR(r, A.ANDS([same, ga ^ 1, gb]))
        if op == '<=':
            r = A.OR(r, A.ANDS([same, ga ^ 1, gb ^ 1]))
        both = A.ANDS([same, ga, gb])
        if both == FALSE:
            return r
        r = A.OR(r, A.AND(both, cmp_lit('<', u, v)))
        same = A.AND(both, eq(u, v))
    return A.OR(r, same) if op == '<=' else r


def seqitems(x):
    if isinstance(x, tuple):
        return list(x)
    if isinstance(x, SList):
        return x.definite()
    return None


def eq(a, b):
    """literal for a == b"""
    A = st.aig
    if a is b and not isinstance(a, float):
        return TRUE
    if isinstance(a, (Q, LP)) or isinstance(b, (Q, LP)):
        if isinstance(a, Q) or isinstance(b, Q):
            la, lb = tolp(a) if not isinstance(a, Q) else 0, tolp(b) if not isinstance(b, Q) else 0
            if la is None or lb is None:
                return FALSE
            d = Q.of(a) - Q.of(b)
            return _atom('==', d.n)
        la, lb = tolp(a), tolp(b)
        if la is None or lb is None:
            return FALSE
        return _atom('==', la - lb)
    if isinstance(a, (U, SB)) or isinstance(b, (U, SB)):
        aa, bb = alts(a), alts(b)
        if len(aa) > 3 and len(bb) > 3:
            # match by key when primitive
            da = {}
            ok = True
            for g, x in aa:
                if not isinstance(x, PRIM):
                    ok = False
                    break
                da[x] = A.OR(da[x], g) if x in da else g
            if ok and all(isinstance(y, PRIM) for _, y in bb):
                r = FALSE
                for h, y in bb:
                    if y in da:
                        r = A.OR(r, A.AND(da[y], h))
                return r
        r = FALSE
        for g, x in aa:
            if x is UNBOUND:
                continue
            for h, y in bb:
                if y is UNBOUND:
                    continue
                gh = A.AND(g, h)
                if gh == FALSE:
                    continue
                t = eq(x, y)
                r = A.OR(r, A.AND(gh, t))
        return r
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return FALSE
        r = TRUE
        for x, y in zip(a, b):
            r = A.AND(r, eq(x, y))
            if r == FALSE:
                return r
        return r
    if isinstance(a, SList) or isinstance(b, SList):
        if isinstance(a, tuple):
            a = SList([(TRUE, x) for x in a], kind='tuple')
        if isinstance(b, tuple):
            b = SList([(TRUE, x) for x in b], kind='tuple')
        if not (isinstance(a, SList) and isinstance(b, SList)) or a.kind != b.kind:
            return FALSE
        return a.eq(b)
    if isinstance(a, SSet) or isinstance(b, SSet):
        if not (isinstance(a, SSet) and isinstance(b, SSet)):
            return FALSE
        return A.AND(a.subset_lit(b), b.subset_lit(a))
    if isinstance(a, SDict) or isinstance(b, SDict):
        if not (isinstance(a, SDict) and isinstance(b, SDict)):
            return FALSE
        return a.eq(b)
    if isinstance(a, SRange) and isinstance(b, SRange):
        return TRUE if a.native() == b.native() else FALSE
    if isinstance(a, NDArr) or isinstance(b, NDArr):
        raise Unsupported('truth of array comparison')
    try:
        r = a == b
    except Unsupported:
        raise
    if r is True or r is False:
        return TRUE if r else FALSE
    if isinstance(r, SB):
        return r.l
    try:
        return TRUE if bool(r) else FALSE
    except Exception:
        raise Unsupported('equality of %s and %s' % (type(a), type(b)))


def truth(v):
    A = st.aig
    if isinstance(v, SB):
        return v.l
    if v is True:
        return TRUE
    if v is False:
        return FALSE
    if isinstance(v, U):
        r = FALSE
        for g, x in v.alts:
            if x is UNBOUND:
                continue
            r = A.OR(r, A.AND(g, truth(x)))
        return r
    if isinstance(v, (LP, Q)):
        return eq(v, 0) ^ 1
    if isinstance(v, SList):
        return A.ORS(g for g, _ in v.slots)
    if isinstance(v, SSet):
        return A.ORS(g for g, _ in v.members())
    if isinstance(v, SDict):
        return A.ORS(g for _, g, _ in v.entries)
    if isinstance(v, NDArr):
        if v.a.size == 1:
            return truth(v.a.reshape(-1)[0])
        raise Unsupported('truth value of an array')
    if isinstance(v, SRange):
        return A.ORS(g for g, _ in v.slots())
    if isinstance(v, SObj):
        if v.cls_has('__bool__') or v.cls_has('__len__'):
            raise Unsupported('object truth via __bool__/__len__')
        return TRUE
    try:
        return TRUE if bool(v) else FALSE
    except Unsupported:
        raise
    except Exception:
        raise Unsupported('truth of %s' % type(v))


def ite(c, a, b):
    A = st.aig
    if c == TRUE or a is b:
        return a
    if c == FALSE:
        return b
    if a is UNBOUND:
        return mku([(c, UNBOUND), (c ^ 1, b)]) if not isinstance(b, (LP, Q)) else b
    if b is UNBOUND:
        return mku([(c, a), (c ^ 1, UNBOUND)]) if not isinstance(a, (LP, Q)) else a
    if isinstance(a, Q) or isinstance(b, Q):
        la, lb = Q.of(a), Q.of(b)
        if la.n is not None and lb.n is not None:
            if la.d.t == lb.d.t:
                return Q(ite(c, la.n, lb.n), la.d)
            return Q(ite(c, la.n, lb.n), ite(c, la.d, lb.d))
    if isinstance(a, LP) or isinstance(b, LP):
        la, lb = tolp(a), tolp(b)
        if la is not None and lb is not None:
            r = {}
            AND = A.AND
            n = c ^ 1
            for k, x in la.t.items():
                y = lb.t.get(k)
                if y is not None and y == x:
                    r[k] = r.get(k, 0) + x
                    continue
                g = AND(c, k[1])
                if g != FALSE:
                    kk = (k[0], g)
                    r[kk] = r.get(kk, 0) + x
            for k, y in lb.t.items():
                x = la.t.get(k)
                if x is not None and x == y:
                    continue
                g = AND(n, k[1])
                if g != FALSE:
                    kk = (k[0], g)
                    r[kk] = r.get(kk, 0) + y
            return LP({k: x for k, x in r.items() if x})
    if isbool(a) and isbool(b):
        return mkb(A.MUX(c, truth(a), truth(b)))
    if isinstance(a, PRIM) and isinstance(b, PRIM) and type(a) is type(b) and a == b:
        return a
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return like((a, b), [ite(c, x, y) for x, y in zip(a, b)])
    n = c ^ 1
    pairs = []
    for g, v in (a.alts if isinstance(a, U) else [(c, a)]):
        pairs.append((A.AND(c, g), v))
    for g, v in (b.alts if isinstance(b, U) else [(n, b)]):
        pairs.append((A.AND(n, g), v))
    return mku(pairs)


NUM_LIMIT = 400
OPS = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv,
       '//': operator.floordiv, '%': operator.mod, '**': operator.pow, '&': operator.and_,
       '|': operator.or_, '^': operator.xor, '<<': operator.lshift, '>>': operator.rshift,
       'and': operator.and_, 'or': operator.or_}


def num_op(op, a, b, onraise=None):
    """binary operator over unions / polynomials of primitives"""
    A = st.aig
    if isinstance(a, (LP, Q)) or isinstance(b, (LP, Q)):
        if op in ('+', '-', '*'):
            x = a if isinstance(a, (LP, Q)) else tolp(a)
            y = b if isinstance(b, (LP, Q)) else tolp(b)
            if x is None or y is None:
                raise Unsupported('arithmetic on %s, %s' % (type(a), type(b)))
            return OPS[op](x, y)
        if op == '/':
            return div(a, b)
        if op == '**':
            bb = b
            if isinstance(bb, U):
                return mku([(g, num_op('**', a, v)) for g, v in bb.alts])
            if isinstance(a, (LP, Q)) and not isinstance(b, (LP, Q)):
                if isinstance(b, float) and b == 0.5:
                    return sqrt(a)
                return a ** b
        ua = lp_to_u(a) if isinstance(a, LP) else a
        ub = lp_to_u(b) if isinstance(b, LP) else b
        if ua is None or ub is None or isinstance(ua, Q) or isinstance(ub, Q):
            raise Unsupported('operator %s on symbolic reals' % op)
        return num_op(op, ua, ub, onraise)
    aa, bb = alts(a), alts(b)
    if len(aa) * len(bb) > NUM_LIMIT and op in ('+', '-', '*') and len(bb) > 1 and len(aa) > 1:
        la, lb = tolp(a), tolp(b)
        if la is not None and lb is not None:
            return OPS[op](la, lb)
    f = OPS[op]
    out = {}
    spec = []
    for g, x in aa:
        if x is UNBOUND:
            continue
        for h, y in bb:
            if y is UNBOUND:
                continue
            gh = A.AND(g, h)
            if gh == FALSE:
                continue
            if not (isinstance(x, PRIM) and isinstance(y, PRIM)):
                spec.append((gh, st.ip.binop(op, x, y)))
                continue
            try:
                v = f(x, y)
            except Exception as e:
                if onraise is None:
                    if A.infeasible(A.AND(st.pc.full, gh)):
                        continue
                    raise
                onraise(gh, e)
                continue
            k = (type(v).__name__, v)
            o = out.get(k)
            if o is None:
                out[k] = [gh, v]
            else:
                o[0] = A.OR(o[0], gh)
    pairs = [(g, v) for g, v in out.values()] + spec
    if not pairs:
        return UNBOUND
    return mku(pairs)


_sqrtn = [0]


def sqrt(x):
    """non-negative square root of a symbolic non-negative number"""
    if isinstance(x, (int, float)):
        return float(x) ** 0.5
    if isinstance(x, (U, SB)):
        if all(isinstance(v, (int, float, Fraction)) for _, v in alts(x)):
            return mku([(g, sqrt(float(v))) for g, v in alts(x)])
    if isinstance(x, Q):
        return div(sqrt(x.n * x.d), x.d)
    lp = tolp(x)
    if lp.isconst():
        c = float(lp.const()) ** 0.5
        return int(c) if c == int(c) else c
    key = frozenset(lp.t.items())
    for k, v in SQRT.items():
        if v.t == lp.t:
            return LP({((k,), TRUE): Fraction(1)})
    _sqrtn[0] += 1
    name = '~sqrt%d' % _sqrtn[0]
    SQRT[name] = lp
    A = st.aig
    import math

    def exact_sqrt(f):
        f = max(f, Fraction(0))
        return Fraction(math.sqrt(float(f)))
    A.real_samples[name] = [exact_sqrt(v) for v in lp_eval_samples(lp)]
    r = z3.Real(name)
    A.add_real_constraint(z3.And(r >= 0, r * r == lp_z3(lp)),
                          lambda: z3.And(r >= 0, A.mono((name, name)) == lp_z3(lp), z3.Or(r > 0, lp_z3(lp) == 0)))
    return LP({((name,), TRUE): Fraction(1)})


def _mk_ops():
    def mk(op):
        def f(self, o):
            if isinstance(o, (SList, NDArr)):
                return NotImplemented
            return num_op(op, self, o)

        def r(self, o):
            if isinstance(o, (SList, NDArr)):
                return NotImplemented
            return num_op(op, o, self)
        return f, r
    for name, op in (('add', '+'), ('sub', '-'), ('mul', '*'), ('truediv', '/'), ('floordiv', '//'),
                     ('mod', '%'), ('pow', '**')):
        f, r = mk(op)
        for cls in (U, SB):
            setattr(cls, '__%s__' % name, f)
            setattr(cls, '__r%s__' % name, r)
    for cls in (U, SB):
        cls.__neg__ = lambda self: num_op('-', 0, self)
        cls.__abs__ = lambda self: mku([(g, abs(v)) for g, v in alts(self)])
        cls.__lt__ = lambda s, o: mkb(cmp_lit('<', s, o))
        cls.__le__ = lambda s, o: mkb(cmp_lit('<=', s, o))
        cls.__gt__ = lambda s, o: mkb(cmp_lit('>', s, o))
        cls.__ge__ = lambda s, o: mkb(cmp_lit('>=', s, o))


_mk_ops()


# ---------------------------------------------------------------------------- containers
class SList:
    """list (or tuple of unknown shape).  slots: [(guard, value)] in order; a slot is present
    when its guard holds.  segs: [(nslots, known_length or None)] partition of slots."""
    __slots__ = ('slots', 'segs', 'pc', 'kind', 'meta')
    __hash__ = object.__hash__

    def __init__(self, slots=None, pc=None, kind='list', segs=None):
        self.slots = slots if slots is not None else []
        self.pc = pc or st.pc
        self.kind = kind
        self.segs = segs
        self.meta = None

    # -- shape
    def segments(self):
        """[(slots, length or None)]"""
        if self.segs is None:
            if all(g == TRUE for g, _ in self.slots):
                return [(self.slots, len(self.slots))]
            return [(self.slots, None)]
        out, i = [], 0
        for n, L in self.segs:
            out.append((self.slots[i:i + n], L))
            i += n
        return out

    def isdef(self):
        return all(g == TRUE for g, _ in self.slots)

    def known_len(self):
        t = 0
        for s, L in self.segments():
            if L is None:
                if all(g == TRUE for g, _ in s):
                    L = len(s)
                else:
                    return None
            t += L
        return t

    def length(self):
        k = self.known_len()
        if k is not None:
            return k
        return count_u([g for g, _ in self.slots])

    def compact_slots(self):
        """positional form: list of (guard-that-position-exists, value), guards monotone"""
        out = []
        unknown = False
        acc = []
        for s, L in self.segments():
            if L is not None and not unknown:
                if L == len(s):
                    out.extend((TRUE, v) for _, v in s)
                else:
                    out.extend((TRUE, v) for _, v in positions(s, L))
            else:
                unknown = True
                acc.extend(s)
        if unknown:
            out.extend(positions(acc, None))
        return out

    def definite(self):
        """list of values when the length is known, else None (does not change self)"""
        if self.isdef():
            return [v for _, v in self.slots]
        c = self.compact_slots()
        if all(g == TRUE for g, _ in c):
            return [v for _, v in c]
        return None

    def make_positional(self):
        if not self.isdef() or self.segs is not None:
            p0, st.pc = st.pc, self.pc      # positions that exist on some path of the list, not only on this one
            self.slots = self.compact_slots()
            st.pc = p0
            self.segs = None
        return self.slots

    def copy(self, pc=None):
        r = SList(list(self.slots), pc or st.pc, self.kind, list(self.segs) if self.segs else None)
        return r

    def eq(self, o):
        A = st.aig
        sa, sb = self.segments(), o.segments()
        if len(sa) == len(sb) and all(x[1] == y[1] and x[1] is not None for x, y in zip(sa, sb)) \
                and (not self.isdef() or not o.isdef()):
            r = TRUE
            for (s1, L), (s2, _) in zip(sa, sb):
                m1, m2 = seg_members(s1), seg_members(s2)
                if m1 is None or m2 is None:
                    break
                for v in set(m1) | set(m2):
                    r = A.AND(r, A.IFF(m1.get(v, FALSE), m2.get(v, FALSE)))
            else:
                return r
        a, b = self.compact_slots(), o.compact_slots()
        r = TRUE
        for i in range(max(len(a), len(b))):
            ga, va = a[i] if i < len(a) else (FALSE, None)
            gb, vb = b[i] if i < len(b) else (FALSE, None)
            r = A.AND(r, A.IFF(ga, gb))
            if ga != FALSE and gb != FALSE:
                e = eq(va, vb)
                if ga != TRUE:
                    e = A.OR(ga ^ 1, e)
                r = A.AND(r, e)
            if r == FALSE:
                break
        return r

    def __eq__(self, o):
        return mkb(eq(self, o))

    def __ne__(self, o):
        return mkb(eq(self, o) ^ 1)

    def __iter__(self):
        if self.isdef():
            return iter([v for _, v in self.slots])
        raise Unsupported('native iteration over a symbolic list')

    def __len__(self):
        k = self.known_len()
        if k is None:
            raise Unsupported('native len of a symbolic list')
        return k

    def __repr__(self):
        return 'SList<%s>(%s)' % (self.kind, ', '.join('%r@%d' % (v, g) for g, v in self.slots[:8]))


def seg_members(slots):
    """slot list with strictly ascending concrete ints -> {value: guard}"""
    d = {}
    last = None
    for g, v in slots:
        if not isinstance(v, int) or isinstance(v, bool) or (last is not None and v <= last):
            return None
        last = v
        d[v] = g
    return d


def positions(slots, L):
    """compact guarded slots: returns [(exists, value)]"""
    A = st.aig
    n = len(slots)
    # cnt[k] = guard that exactly k active so far
    maxl = n if L is None else L
    cnt = [TRUE]
    pos = [[] for _ in range(maxl)]
    for g, v in slots:
        if g == FALSE:
            continue
        for k in range(min(len(cnt), maxl)):
            h = A.AND(cnt[k], g)
            if h != FALSE:
                pos[k].append((h, v))
        if g == TRUE:
            cnt = [FALSE] + cnt
        else:
            new = [FALSE] * (len(cnt) + 1)
            for k in range(len(cnt)):
                new[k] = A.OR(new[k], A.AND(cnt[k], g ^ 1))
                new[k + 1] = A.OR(new[k + 1], A.AND(cnt[k], g))
            while new and new[-1] == FALSE:
                new.pop()
            cnt = new
        if len(cnt) > maxl + 1:
            cnt = cnt[:maxl + 1]
    out = []
    for k in range(maxl):
        ps = [(g, v) for g, v in pos[k] if g != FALSE]
        if L is None:
            # exists iff count > k
            ex = A.ORS(g for g, _ in ps)
            if ex == FALSE:
                break
            if st.aig.infeasible(st.aig.AND(st.pc.full, ex)):
                break
            if ex != TRUE and st.aig.infeasible(A.AND(st.pc.full, ex ^ 1)):
                ex = TRUE
        else:
            ex = TRUE
        if len(ps) > 1:
            ps = [(g, v) for g, v in ps if not A.infeasible(A.AND(st.pc.full, g))] or ps
        out.append((ex, mku(ps)))
    return out


def count_u(guards):
    """number of true guards as a union of ints"""
    A = st.aig
    base = sum(1 for g in guards if g == TRUE)
    gs = [g for g in guards if g not in (TRUE, FALSE)]
    if not gs:
        return base
    cnt = {0: TRUE}
    for g in gs:
        n = {}
        for k, h in cnt.items():
            a, b = A.AND(h, g), A.AND(h, g ^ 1)
            if a != FALSE:
                n[k + 1] = A.OR(n.get(k + 1, FALSE), a)
            if b != FALSE:
                n[k] = A.OR(n.get(k, FALSE), b)
        cnt = n
    pairs = [(g, k + base) for k, g in cnt.items() if not A.infeasible(A.AND(st.pc.full, g))]
    return mku(pairs)


class SRange:
    __slots__ = ('start', 'stop', 'step')
    __hash__ = object.__hash__

    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = start, stop, step

    def native(self):
        if all(isinstance(x, int) for x in (self.start, self.stop, self.step)):
            return range(self.start, self.stop, self.step)
        return None

    def slots(self):
        r = self.native()
        if r is not None:
            return [(TRUE, i) for i in r]
        A = st.aig
        if isinstance(self.step, int):
            out = []
            # symbolic start: split per start alternative
            sa = feasible_alts(self.start) if not isinstance(self.start, int) else [(TRUE, self.start)]
            ea = feasible_alts(self.stop) if not isinstance(self.stop, int) else [(TRUE, self.stop)]
            vals = {}
            for g, s in sa:
                for h, e in ea:
                    gh = A.AND(g, h)
                    if gh == FALSE:
                        continue
                    for i in range(s, e, self.step):
                        vals[i] = A.OR(vals.get(i, FALSE), gh)
            if abs(self.step) != 1 and len(sa) > 1:
                raise Unsupported('range with symbolic start and step')
            for i in sorted(vals, reverse=self.step < 0):
                out.append((vals[i], i))
            return out
        raise Unsupported('range with symbolic step')


class UList(SList):
    """list made from a set whose iteration order is unknown"""
    __slots__ = ('raw',)

    def __init__(self, raw, pc=None):
        self.raw = raw
        self.pc = pc or st.pc
        self.kind = 'list'
        self.segs = None
        self.meta = None

    @property
    def slots(self):
        raise Unsupported('order of a list made from a set')


class SSet:
    """set; ins: insertion sequence [(guard, primitive-or-tuple value)]"""
    __slots__ = ('ins', 'pc', 'frozen', '_mem')
    __hash__ = object.__hash__

    def __init__(self, ins=None, pc=None, frozen=False):
        self.ins = ins if ins is not None else []
        self.pc = pc or st.pc
        self.frozen = frozen
        self._mem = None

    @staticmethod
    def of(slots, frozen=False):
        s = SSet(frozen=frozen)
        for g, v in slots:
            s.add(v, g)
        return s

    def add(self, v, g=TRUE):
        self._mem = None
        A = st.aig
        for h, x in alts(v):
            gh = A.AND(g, h)
            if gh == FALSE or x is UNBOUND:
                continue
            if isinstance(x, SList) and x.kind == 'list':
                raise TypeError("unhashable type: 'list'")
            if isinstance(x, tuple) and not all(isinstance(y, PRIM) for y in _deepflat(x)):
                # tuple with symbolic parts: expand
                for k, t in expand_tuple(x):
                    kk = A.AND(gh, k)
                    if kk != FALSE:
                        self.ins.append((kk, t))
                continue
            if isinstance(x, SList):
                raise Unsupported('symbolic tuple in a set')
            if isinstance(x, (LP, Q)) or (self.hasreal() and isinstance(x, (int, float, Fraction))):
                for e, y in list(self.ins):
                    if isinstance(y, (LP, Q, int, float, Fraction)):
                        gh = A.AND(gh, A.AND(e, eq(x, y)) ^ 1)
                if gh == FALSE:
                    continue
            self.ins.append((gh, x))

    def hasreal(self):
        return any(isinstance(y, (LP, Q)) for _, y in self.ins)

    def noreal(self):
        if self.hasreal():
            raise Unsupported('set of symbolic reals')

    def mem(self):
        if self._mem is None:
            A = st.aig
            d = {}
            for g, v in self.ins:
                d[v] = A.OR(d[v], g) if v in d else g
            self._mem = d
        return self._mem

    def members(self):
        return [(g, v) for v, g in self.mem().items()]

    def contains(self, v):
        A = st.aig
        m = self.mem()
        r = FALSE
        for g, x in alts(v):
            if isinstance(x, tuple) and not all(isinstance(y, PRIM) for y in _deepflat(x)):
                for k, t in expand_tuple(x):
                    r = A.OR(r, A.ANDS([g, k, m.get(t, FALSE)]))
                continue
            if isinstance(x, (LP, Q)) or isinstance(x, (int, float, Fraction)) and self.hasreal():
                for e, y in self.ins:
                    if isinstance(y, (LP, Q, int, float, Fraction)):
                        r = A.OR(r, A.ANDS([g, e, eq(x, y)]))
                continue
            h = m.get(x, FALSE)
            r = A.OR(r, A.AND(g, h))
        return r

    def subset_lit(self, o):
        A = st.aig
        self.noreal()
        o.noreal()
        m = o.mem()
        r = TRUE
        for v, g in self.mem().items():
            r = A.AND(r, A.OR(g ^ 1, m.get(v, FALSE)))
        return r

    def order(self):
        """slots in CPython iteration order"""
        A = st.aig
        m = self.mem()
        vals = list(m)
        if len(vals) <= 1:
            return [(m[v], v) for v in vals]
        if all(isinstance(v, int) and not isinstance(v, bool) for v in vals) and min(vals) >= 0:
            hi = max(vals)
            asc = [(m[v], v) for v in sorted(vals)]
            if hi < 8:
                return asc
            if hi < 32:
                tbl, big = self._table8()
                if tbl is None:
                    return asc
                out = [(A.AND(big ^ 1, g), v) for g, v in tbl] if big != FALSE else tbl
                if big != FALSE:
                    # drop the ordering split when the small form is already ascending
                    out = [(g, v) for g, v in out if g != FALSE] + \
                          [(A.AND(big, g), v) for g, v in asc]
                out = [(g, v) for g, v in out if g != FALSE]
                return out
            if all(g == TRUE for g in m.values()):
                s = set()
                for _, v in self.ins:
                    s.add(v)
                return [(TRUE, v) for v in s]
            raise Unsupported('iteration order of a symbolic set of large ints')
        if all(g == TRUE for g in m.values()) and all(isinstance(v, PRIM) for v in vals):
            s = set()
            for _, v in self.ins:
                s.add(v)
            return [(TRUE, v) for v in s]
        # order depends on hashes of tuples/strings: use insertion order only when it cannot matter
        raise Unsupported('iteration order of a symbolic set')

    def _table8(self):
        """simulate a CPython 8-slot table; big = guard that a 5th element was inserted"""
        A = st.aig
        table = [dict() for _ in range(8)]
        cnt = [TRUE]
        big = FALSE
        inserted = {}
        pcf = st.pc.full
        for g, v in self.ins:
            new = A.AND(g, inserted.get(v, FALSE) ^ 1)
            inserted[v] = A.OR(inserted.get(v, FALSE), g)
            if new == FALSE:
                continue
            # count
            n = [FALSE] * min(len(cnt) + 1, 6)
            for k in range(len(cnt)):
                n[k] = A.OR(n[k], A.AND(cnt[k], new ^ 1))
                if k + 1 < 6:
                    n[min(k + 1, 5)] = A.OR(n[min(k + 1, 5)], A.AND(cnt[k], new))
                else:
                    n[5] = A.OR(n[5], cnt[k])
            cnt = n
            rem = new
            p = v & 7
            for _ in range(8):
                occ = A.ORS(table[p].values())
                put = A.AND(rem, occ ^ 1)
                if put != FALSE:
                    table[p][v] = A.OR(table[p].get(v, FALSE), put)
                rem = A.AND(rem, occ)
                if rem == FALSE or A.infeasible(A.AND(pcf, rem)):
                    break
                p = (p * 5 + 1) & 7
        if len(cnt) > 5:
            big = cnt[5]
            if big != FALSE and A.infeasible(A.AND(pcf, big)):
                big = FALSE
            elif big != TRUE and big != FALSE and A.infeasible(A.AND(pcf, big ^ 1)):
                return None, TRUE
        out = []
        for p in range(8):
            for v in sorted(table[p]):
                g = table[p][v]
                if g != FALSE and not A.infeasible(A.AND(pcf, g)):
                    out.append((g, v))
        return out, big

    def copy(self):
        return SSet(list(self.ins), st.pc, self.frozen)

    def __iter__(self):
        o = self.order()
        if all(g == TRUE for g, _ in o):
            return iter([v for _, v in o])
        raise Unsupported('native iteration over a symbolic set')


def _deepflat(t):
    for x in t:
        if isinstance(x, tuple):
            yield from _deepflat(x)
        else:
            yield x


def like(ts, items):
    """tuple of the common type of ts (named tuples stay named)"""
    t = type(ts[0])
    if t is not tuple and all(type(x) is t for x in ts):
        return t._make(items)
    return tuple(items)


def expand_tuple(t):
    """tuple with symbolic members -> [(guard, concrete tuple)]"""
    A = st.aig
    out = [(TRUE, ())]
    for x in t:
        if isinstance(x, tuple):
            xs = expand_tuple(x)
        else:
            xs = alts(x)
            if any(isinstance(v, (LP, Q, SList, NDArr)) for _, v in xs):
                raise Unsupported('symbolic tuple as key')
        out = [(A.AND(g, h), p + (v,)) for g, p in out for h, v in xs if A.AND(g, h) != FALSE]
        if len(out) > 5000:
            raise Unsupported('tuple key too symbolic')
    return out


class SDict:
    """dict: entries [key, guard, value] in insertion order; symbolic keys allowed"""
    __slots__ = ('entries', 'pc', 'idx', 'default')
    __hash__ = object.__hash__

    def __init__(self, entries=None, pc=None):
        self.entries = entries or []
        self.pc = pc or st.pc
        self.idx = {}
        self.default = None
        for i, e in enumerate(self.entries):
            k = self.ckey(e[0])
            if k is not None:
                self.idx[k] = i

    @staticmethod
    def ckey(k):
        if isinstance(k, PRIM):
            return k
        if isinstance(k, tuple) and all(isinstance(x, PRIM) for x in _deepflat(k)):
            return k
        if isinstance(k, (U, SB, LP, Q, SList, tuple)):
            return None
        return k

    def allconc(self):
        return len(self.idx) == len(self.entries)

    def matches(self, k):
        """[(guard, entry)] of entries equal to key k (k not a union of refs)"""
        A = st.aig
        ck = self.ckey(k)
        if ck is not None and self.allconc():
            i = self.idx.get(ck)
            return [] if i is None or self.entries[i][1] == FALSE else [(self.entries[i][1], self.entries[i])]
        out = []
        for e in self.entries:
            g = A.AND(e[1], eq(e[0], k))
            if g != FALSE:
                out.append((g, e))
        return out

    def contains(self, k):
        return st.aig.ORS(g for g, _ in self.matches(k))

    def lookup(self, k):
        """(guard present, value)"""
        m = self.matches(k)
        return st.aig.ORS(g for g, _ in m), mku([(g, e[2]) for g, e in m]) if m else None

    def set(self, k, v, g):
        """guarded store (g relative to allocation)"""
        A = st.aig
        if isinstance(k, U):
            for h, x in k.alts:
                self.set(x, v, A.AND(g, h))
            return
        if g == FALSE:
            return
        m = self.matches(k)
        found = FALSE
        for h, e in m:
            e[2] = ite(A.AND(g, h), v, e[2])
            found = A.OR(found, h)
        new = A.AND(g, found ^ 1)
        if new != FALSE and not A.infeasible(A.AND(st.pc.full, new)):
            ck = self.ckey(k)
            if ck is not None and ck in self.idx:
                e = self.entries[self.idx[ck]]
                if e[1] == FALSE:
                    e[1], e[2] = new, v
                else:
                    e[2] = ite(new, v, e[2])
                    e[1] = A.OR(e[1], new)
                return
            if ck is not None:
                self.idx[ck] = len(self.entries)
            self.entries.append([k, new, v])

    def delete(self, k, g):
        A = st.aig
        for h, e in self.matches(k):
            e[1] = A.AND(e[1], A.AND(g, h) ^ 1)

    def eq(self, o):
        A = st.aig
        r = TRUE
        for x, y in ((self, o), (o, self)):
            for k, g, v in x.entries:
                p, w = y.lookup(k)
                if p == FALSE:
                    r = A.AND(r, g ^ 1)
                else:
                    r = A.AND(r, A.OR(g ^ 1, A.AND(p, eq(v, w))))
        return r


class SObj:
    """instance of an interpreted class"""
    __slots__ = ('cls', 'd', 'pc')
    __hash__ = object.__hash__

    def __init__(self, cls, pc=None):
        self.cls = cls
        self.d = {}
        self.pc = pc or st.pc

    def cls_has(self, name):
        return any(name in c.__dict__ for c in self.cls.__mro__[:-1])

    def __repr__(self):
        return '<SObj %s>' % self.cls.__name__


class NDArr:
    """numpy array with object storage; dt is the logical dtype"""
    __slots__ = ('a', 'dt', 'pc')
    __hash__ = object.__hash__
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, a, dt='float', pc=None):
        self.a = a
        self.dt = dt
        self.pc = pc or st.pc

    def __repr__(self):
        return 'NDArr%s' % (self.a.shape,)


class SIter:
    """iterator object: slots with availability guards"""
    __slots__ = ('slots', 'pc')
    __hash__ = object.__hash__

    def __init__(self, slots, pc=None):
        self.slots = [list(s) for s in slots]
        self.pc = pc or st.pc
