"""Runs property units: symbolic inputs, solver verdicts, replay of counterexamples on the real
code, differential validation of the translation on sampled inputs."""
import builtins
import contextlib
import copy
import importlib
import io
import json
import math
import os
import random
import signal
import sys
import tempfile
import threading
import time
import traceback
from fractions import Fraction

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
for p in (os.path.join(HERE, 'props'), HERE, REPO):
    if p in sys.path:
        sys.path.remove(p)
    sys.path.insert(0, p)
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if VT not in sys.path:
    sys.path.append(VT)
sys.setrecursionlimit(20000)

import numpy as np          # noqa: E402
import z3                   # noqa: E402
import hlib                 # noqa: E402
from sym.aig import Aig, SatModel, TRUE, FALSE     # noqa: E402
from sym import vals as V                # noqa: E402
from sym.vals import (st, PC, SList, SSet, SDict, SObj, NDArr, U, SB, LP, Q, SRange, SIter, mku, mkb,  # noqa: E402
                      Unsupported, alts, UNBOUND, truth, tolp, eq, count_u)
from sym.interp import Interp, PyErr, Dead   # noqa: E402


# ------------------------------------------------------------------ symbolic inputs
class Inp:
    col = None          # discrete value per simulation column, when the columns are exhaustive

    def nat(self, ev):
        raise NotImplementedError

    def count(self):
        """number of discrete values"""
        return 1

    def enum(self):
        """discrete values in the form draw() returns them"""
        return [None]

    def draw(self, rng):
        return None

    def columns(self, C):
        return self.col if self.col is not None else [self.draw(C.aig.rng) for _ in range(C.aig.K)]


def bits(col, f):
    r = 0
    for k, x in enumerate(col):
        if f(x):
            r |= 1 << k
    return r


EXHAUSTIVE = 70000       # simulate every discrete assignment up to this many


def plan(inputs):
    """exhaustive simulation columns when the discrete inputs have few values; -> K or None"""
    leaves = []

    def walk(i):
        if isinstance(i, Seq):
            for x in i.items:
                if isinstance(x, Inp):
                    walk(x)
        elif isinstance(i, Inp):
            leaves.append(i)
    for i in inputs.values():
        walk(i)
    total = 1
    real = any(isinstance(i, (Real, Vec)) for i in leaves)
    for i in leaves:
        i.col = None
        total *= i.count()
    if total > (1000 if real else EXHAUSTIVE):
        return None
    if total == 1:
        return None
    rows = [()]
    for i in leaves:
        vs = i.enum()
        rows = [r + (v,) for r in rows for v in vs]
    random.Random(5).shuffle(rows)
    while len(rows) < 64:
        rows = rows + rows
    for k, i in enumerate(leaves):
        if i.count() > 1:
            i.col = [r[k] for r in rows]
    return len(rows)


def fresh(aig, name, bits, groups=()):
    return aig.var(name, bits, groups)


class Bool(Inp):
    def build(self, name, C):
        self.l = fresh(C.aig, name, bits(self.columns(C), bool))
        return mkb(self.l)

    def count(self):
        return 2

    def enum(self):
        return [False, True]

    def draw(self, rng):
        return rng.random() < .5

    def nat(self, ev):
        return ev.b(self.l)


class Choice(Inp):
    """one of a finite list of concrete values"""

    def __init__(self, *vals):
        self.vals = list(vals)

    def build(self, name, C):
        n = len(self.vals)
        A = C.aig
        pick = self.columns(C)
        self.ls = [fresh(A, '%s=%d' % (name, i), bits(pick, lambda p: p == i), (name,))
                   for i in range(n - 1)]
        self.ls.append(A.ANDS(l ^ 1 for l in self.ls))      # the last one is the complement of the others
        return mku([(l, C.ip.from_native(v, {})) for l, v in zip(self.ls, self.vals)])

    def count(self):
        return len(self.vals)

    def enum(self):
        return list(range(len(self.vals)))

    def draw(self, rng):
        return rng.randrange(len(self.vals))

    def nat(self, ev):
        for l, v in zip(self.ls, self.vals):
            if ev.b(l):
                import copy
                return copy.deepcopy(v)
        return self.vals[-1]


def Int(lo, hi):
    return Choice(*range(lo, hi + 1))


class Real(Inp):
    def __init__(self, lo=None, hi=None, nz=False):
        self.lo, self.hi, self.nz = lo, hi, nz

    def build(self, name, C):
        A = C.aig
        self.name = name
        lo = self.lo if self.lo is not None else -3
        hi = self.hi if self.hi is not None else 3

        def smp():
            while True:
                v = Fraction(A.rng.randint(int(lo * 64), int(hi * 64)), 64)
                if v != 0 or not self.nz:
                    return v
        A.real_samples[name] = [smp() for _ in range(A.K)]
        A.reals[name] = z3.Real(name)
        x = LP({((name,), TRUE): Fraction(1)})
        if self.lo is not None:
            A.add_real_constraint(z3.Real(name) >= self.lo)
        if self.hi is not None:
            A.add_real_constraint(z3.Real(name) <= self.hi)
        if self.nz:
            A.add_real_constraint(z3.Real(name) != 0)
        return x

    def nat(self, ev):
        return ev.r(self.name)


class Vec(Inp):
    """numpy array of reals of a given shape"""

    def __init__(self, *shape, lo=None, hi=None, symmetric=False, aslist=False):
        self.shape, self.lo, self.hi, self.symmetric, self.aslist = shape, lo, hi, symmetric, aslist

    def build(self, name, C):
        a = np.empty(self.shape, dtype=object)
        self.el = {}
        for ix in np.ndindex(*self.shape):
            if self.symmetric and ix[0] > ix[1]:
                a[ix] = a[ix[::-1]]
                continue
            r = Real(self.lo, self.hi)
            a[ix] = r.build('%s%s' % (name, ','.join(map(str, ix))), C)
            self.el[ix] = r
        if self.aslist:
            return SList([(TRUE, v) for v in a])
        return NDArr(a, 'float')

    def nat(self, ev):
        a = np.zeros(self.shape)
        for ix, r in self.el.items():
            a[ix] = r.nat(ev)
            if self.symmetric:
                a[ix[::-1]] = a[ix]
        return a.tolist() if self.aslist else a


class Det(Inp):
    """determinant on the given sites with nh holes, nb betas: any arrangement"""

    def __init__(self, sites, nh, nb):
        self.sites = list(range(sites)) if isinstance(sites, int) else list(sites)
        self.nh, self.nb = nh, nb

    def build(self, name, C):
        A = C.aig
        S, nh, nb = self.sites, self.nh, self.nb
        n = len(S)
        na = n - nh - nb
        smp = self.columns(C)
        self.occ = {}
        for s in S:
            g = '%s@%d' % (name, s)
            bs = [bits(smp, lambda x: s in x[q]) for q in (0, 1)]
            h = fresh(A, '%s.h%d' % (name, s), bs[0], (g,)) if nh and nh < n else (TRUE if nh == n else FALSE)
            if nb == 0 or nh == n:
                b = FALSE
            elif na == 0:
                b = h ^ 1
            else:
                b = fresh(A, '%s.b%d' % (name, s), bs[1], (g,))
            a = A.AND(h ^ 1, b ^ 1) if na else FALSE
            self.occ[s] = (h, b, a)
        slots, segs = [], []
        for q, L in enumerate((nh, nb, na)):
            if L == 0:
                continue
            if L == n:
                seg = [(TRUE, s) for s in S]
            else:
                seg = [(self.occ[s][q], s) for s in S]
            slots += seg
            segs.append((n, L))
        for q, L in enumerate((nh, nb, na)):
            gs = [self.occ[s][q] for s in S]
            if 0 < L < n:
                card(C, gs, L)
        return SList(slots, segs=segs)

    def count(self):
        n = len(self.sites)
        return math.comb(n, self.nh) * math.comb(n - self.nh, self.nb)

    def enum(self):
        from itertools import combinations
        return [(set(h), set(b)) for h in combinations(self.sites, self.nh)
                for b in combinations([s for s in self.sites if s not in h], self.nb)]

    def draw(self, rng):
        p = self.sites[:]
        rng.shuffle(p)
        return set(p[:self.nh]), set(p[self.nh:self.nh + self.nb])

    def nat(self, ev):
        out = []
        for q in range(3):
            out += [s for s in self.sites if ev.b(self.occ[s][q])]
        return out


def card(C, lits, k):
    """assume exactly k of lits"""
    A = C.aig
    lp = LP({})
    for l in lits:
        lp = lp + tolp(SB(l) if l > 1 else bool(l))
    A.assume(eq(lp, k))


class Subset(Inp):
    """sorted list of some of the elements (optionally of exactly k elements)"""

    def __init__(self, elems, k=None, nonempty=False):
        self.elems = list(range(elems)) if isinstance(elems, int) else list(elems)
        self.k, self.nonempty = k, nonempty

    def build(self, name, C):
        A = C.aig
        n = len(self.elems)
        col = self.columns(C)
        cols = [bits(col, lambda x: i in x) for i in range(n)]
        self.ls = [fresh(A, '%s.%s' % (name, e), c) for e, c in zip(self.elems, cols)]
        if self.k is not None:
            card(C, self.ls, self.k)
        if self.nonempty:
            A.assume(A.ORS(self.ls))
        return SList([(l, e) for l, e in zip(self.ls, self.elems)],
                     segs=[(n, self.k)] if self.k is not None else None)

    def count(self):
        n = len(self.elems)
        return math.comb(n, self.k) if self.k is not None else 2 ** n - (1 if self.nonempty else 0)

    def enum(self):
        from itertools import combinations
        n = len(self.elems)
        ks = [self.k] if self.k is not None else range(1 if self.nonempty else 0, n + 1)
        return [set(c) for k in ks for c in combinations(range(n), k)]

    def draw(self, rng):
        n = len(self.elems)
        if self.k is not None:
            return set(rng.sample(range(n), self.k))
        pick = {i for i in range(n) if rng.random() < 0.5}
        return pick or ({rng.randrange(n)} if self.nonempty else pick)

    def nat(self, ev):
        return [e for l, e in zip(self.ls, self.elems) if ev.b(l)]


class Graph(Inp):
    """symmetric 0/1 matrix without loops (a bond matrix)"""

    def __init__(self, n):
        self.n = n

    def build(self, name, C):
        A = C.aig
        self.e = {}
        col = self.columns(C)
        a = np.empty((self.n, self.n), dtype=object)
        for i in range(self.n):
            a[i, i] = 0.0
            for j in range(i + 1, self.n):
                l = fresh(A, '%s.%d-%d' % (name, i, j), bits(col, lambda x: (i, j) in x))
                self.e[(i, j)] = l
                a[i, j] = a[j, i] = mku([(l, 1.0), (l ^ 1, 0.0)])
        return NDArr(a, 'float')

    def pairs(self):
        return [(i, j) for i in range(self.n) for j in range(i + 1, self.n)]

    def count(self):
        return 2 ** len(self.pairs())

    def enum(self):
        from itertools import combinations
        ps = self.pairs()
        return [set(c) for k in range(len(ps) + 1) for c in combinations(ps, k)]

    def draw(self, rng):
        d = rng.choice((.3, .5, .7))
        return {p for p in self.pairs() if rng.random() < d}

    def nat(self, ev):
        m = np.zeros((self.n, self.n))
        for (i, j), l in self.e.items():
            if ev.b(l):
                m[i, j] = m[j, i] = 1.0
        return m


class Perm(Inp):
    """permutation of elems as a list"""

    def __init__(self, elems):
        self.elems = list(range(elems)) if isinstance(elems, int) else list(elems)

    def build(self, name, C):
        A = C.aig
        n = len(self.elems)
        perms = self.columns(C)
        self.p = [[fresh(A, '%s.%d=%d' % (name, i, v), bits(perms, lambda p: p[i] == v),
                         ('%sr%d' % (name, i), '%sc%d' % (name, v))) for v in range(n)] for i in range(n)]
        for i in range(n):
            A.assume(A.ORS(self.p[i]))
            A.assume(A.ORS(self.p[j][i] for j in range(n)))
        return SList([(TRUE, mku([(self.p[i][v], self.elems[v]) for v in range(n)])) for i in range(n)])

    def count(self):
        return math.factorial(len(self.elems))

    def enum(self):
        from itertools import permutations
        return list(permutations(range(len(self.elems))))

    def draw(self, rng):
        p = list(range(len(self.elems)))
        rng.shuffle(p)
        return p

    def nat(self, ev):
        return [next(self.elems[v] for v in range(len(self.elems)) if ev.b(row[v])) for row in self.p]


class Seq(Inp):
    """list of inputs"""

    def __init__(self, *items, tup=False):
        self.items, self.tup = [copy.copy(x) if isinstance(x, Inp) else x for x in items], tup

    def build(self, name, C):
        xs = [x.build('%s[%d]' % (name, i), C) if isinstance(x, Inp) else C.ip.from_native(x, {})
              for i, x in enumerate(self.items)]
        return tuple(xs) if self.tup else SList([(TRUE, x) for x in xs])

    def nat(self, ev):
        r = [x.nat(ev) if isinstance(x, Inp) else x for x in self.items]
        return tuple(r) if self.tup else r


# ------------------------------------------------------------------ evaluation at a point
class SampleEv:
    def __init__(self, C, i):
        self.C, self.i = C, i

    def b(self, l):
        return bool((self.C.aig.lsig(l) >> self.i) & 1)

    def r(self, name):
        return float(self.C.aig.real_samples[name][self.i])

    def frac(self, name):
        return self.C.aig.real_samples[name][self.i]


class ModelEv:
    def __init__(self, C, m):
        self.C, self.m = C, m
        self.memo = {}

    def b(self, l):
        A = self.C.aig
        k = l >> 1
        if isinstance(self.m, SatModel):
            return self.node(k) ^ bool(l & 1)
        if k not in self.memo:
            v = self.m.eval(A.z(2 * k), model_completion=True)
            self.memo[k] = z3.is_true(v)
        return self.memo[k] ^ bool(l & 1)

    def node(self, k):
        """value of a node from the values of the inputs"""
        A, memo = self.C.aig, self.memo
        stack = [k]
        while stack:
            n = stack[-1]
            if n in memo:
                stack.pop()
                continue
            kd = A.kind[n]
            if kd == 'const':
                memo[n] = False
            elif kd == 'var':
                memo[n] = self.m.vals.get(n, False)
            elif kd == 'and':
                miss = [m >> 1 for m in A.conj[n] if m >> 1 not in memo]
                if miss:
                    stack.extend(miss)
                    continue
                memo[n] = all(memo[m >> 1] ^ bool(m & 1) for m in A.conj[n])
            else:
                if kd == 'buf':
                    l = A.payload[n]
                elif 2 * n in self.pbs():
                    l = A.pb_circuit(*self.pbs()[2 * n])
                else:
                    memo[n] = False
                    continue
                if l >> 1 not in memo:
                    stack.append(l >> 1)
                    continue
                memo[n] = memo[l >> 1] ^ bool(l & 1)
            stack.pop()
        return memo[k]

    def pbs(self):
        if not hasattr(self, '_pbs'):
            A = self.C.aig
            self._pbs = {A.table[key]: v for key, v in A.pbinfo.items()}
        return self._pbs

    def frac(self, name):
        if isinstance(self.m, SatModel):
            return self.C.aig.real_samples[name][0]
        v = self.m.eval(z3.Real(name), model_completion=True)
        if z3.is_algebraic_value(v):
            v = v.approx(30)
        return Fraction(v.numerator_as_long(), v.denominator_as_long())

    def r(self, name):
        return float(self.frac(name))


def ev_num(ev, lp):
    s = Fraction(0)
    for (m, g), c in lp.t.items():
        if ev.b(g):
            t = c
            for x in m:
                t *= ev.frac(x)
            s += t
    return s


def ev_val(ev, v, memo=None):
    """engine value at a point, as plain data (arrays become nested lists)"""
    if v is UNBOUND:
        return '<unbound>'
    if isinstance(v, SB):
        return ev.b(v.l)
    if isinstance(v, U):
        for g, x in v.alts:
            if ev.b(g):
                return ev_val(ev, x)
        return '<none>'
    if isinstance(v, LP):
        return float(ev_num(ev, v))
    if isinstance(v, Q):
        d = ev_num(ev, v.d)
        return float(ev_num(ev, v.n) / d) if d else float('nan')
    if isinstance(v, Fraction):
        return float(v)
    if isinstance(v, tuple):
        return [ev_val(ev, x) for x in v]
    if isinstance(v, (SList, SIter)):
        return [ev_val(ev, s[1]) for s in v.slots if ev.b(s[0])]
    if isinstance(v, SSet):
        return sorted({x if isinstance(x, (int, float, str)) else repr(x) for g, x in v.members() if ev.b(g)},
                      key=repr)
    if isinstance(v, SDict):
        return {repr(ev_val(ev, k)): ev_val(ev, x) for k, g, x in v.entries if ev.b(g)}
    if isinstance(v, NDArr):
        def rec(a):
            return [rec(x) for x in a] if isinstance(a, np.ndarray) and a.ndim else ev_val(ev, a if not isinstance(
                a, np.ndarray) else a[()])
        return rec(v.a)
    if isinstance(v, SObj):
        return {k: ev_val(ev, x) for k, x in sorted(v.d.items())}
    from sym.msp import SpMat
    if isinstance(v, SpMat):
        a = np.zeros(v.shape)
        for g, x, r, c in v.ent:
            if ev.b(g):
                a[r, c] += ev_val(ev, x)
        return a.tolist()
    return v


def plain(x):
    import scipy.sparse as sp
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, np.ndarray):
        return [plain(y) for y in x.tolist()] if x.ndim else plain(x.item())
    if sp.issparse(x):
        return x.toarray().tolist()
    if isinstance(x, (list, tuple, range)):
        return [plain(y) for y in x]
    if isinstance(x, (set, frozenset)):
        return sorted({plain(y) if isinstance(y, (int, float, str)) else repr(plain(y) if not isinstance(y, tuple)
                       else tuple(y)) for y in x}, key=repr)
    if isinstance(x, dict):
        return {repr(plain(k)): plain(v) for k, v in x.items()}
    if hasattr(x, '__dict__') and not callable(x):
        return {k: plain(v) for k, v in sorted(x.__dict__.items())}
    return x


def same(a, b, tol=1e-6):
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b) if isinstance(a, (bool, int, float)) and isinstance(b, (bool, int, float)) else False
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a != a or b != b:
            return a != a and b != b
        return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k], tol) for k in a)
    return a == b or type(a) is type(b) and not isinstance(a, (str, int, float, list, dict))


# ------------------------------------------------------------------ units
class Unit:
    def __init__(self, name, fn, inputs=None, fixed=None, stubs=None, bounds='', tier='quick', nsamples=6,
                 limit=None, validate=True, setup=None, native_never=(), seed=None, retval=True, known=None):
        self.name, self.fn, self.inputs, self.fixed = name, fn, {k: copy.deepcopy(x) for k, x in (inputs or {}).items()}, fixed or {}
        self.stubs = stubs or {}
        self.bounds, self.tier, self.nsamples, self.limit = bounds, tier, nsamples, limit
        self.validate, self.setup, self.native_never = validate, setup, set(native_never)
        self.retval = retval
        self.known = known


class Ctx:
    def __init__(self, aig, ip):
        self.aig, self.ip = aig, ip


def resolve(path):
    mod, attr = path.split(':')
    o = importlib.import_module(mod)
    parts = attr.split('.')
    for p in parts[:-1]:
        o = getattr(o, p)
    return o, parts[-1], getattr(o, parts[-1])


REPO_MODULES = ['baseConstruction', 'latticeFunctions', 'interactions', 'hamiltonianConstruction', 'davidson',
                'initialComputations', 'embedding', 'postProcessing']


def hook_models(ip, S):
    def m_check(ip, a, k):
        c = truth(a[0])
        S['obligations'] += 1
        if c != TRUE:
            ip.raise_guarded(c ^ 1, hlib.Violation(a[1] if len(a) > 1 and isinstance(a[1], str) else 'check'))
        else:
            S['trivial'] += 1

    def m_assume(ip, a, k):
        c = truth(a[0])
        if c != TRUE:
            ip.raise_guarded(c ^ 1, hlib.Skip())

    def m_reach(ip, a, k):
        S['reach'].append((a[1], ip.aig.AND(ip.pc.full, truth(a[0]))))

    def small(d):
        if isinstance(d, LP):
            return LP({k: c for k, c in d.t.items() if abs(c) > 1e-9})
        return d

    def m_close(ip, a, k):
        x, y = a
        if isinstance(x, (int, float, Fraction)) and isinstance(y, (int, float, Fraction)):
            x, y = float(x), float(y)
            return abs(x - y) <= hlib.TOL * max(1.0, abs(x), abs(y))
        if isinstance(x, Q) or isinstance(y, Q):
            d = Q.of(x) - Q.of(y)
            return mkb(V._atom('==', small(d.n)))
        if tolp(x) is None or tolp(y) is None:
            raise PyErr(TypeError('close: not numbers'))
        r = V._atom('==', small(tolp(x) - tolp(y)))
        if r == TRUE:
            S['canon'].append((tolp(x), tolp(y)))
        return mkb(r)

    def m_nonzero(ip, a, k):
        return mkb(eq(a[0], 0) ^ 1)
    def m_workdir(ip, a, k):
        ip.vfs.clear()
        for d in a:
            mb.m_makedirs(ip, (d,), {})

    def m_reads(ip, a, k):
        r = SList(list(ip.vfs.get('reads', [])))
        ip.vfs['reads'] = []
        return r

    def m_nfiles(ip, a, k):
        by = {}
        for rec in ip.vfs.get('files', []):
            by[rec['path']] = ip.aig.OR(by.get(rec['path'], FALSE), rec['g'])
        return V.count_u(list(by.values()))
    from sym import mbuiltin as mb
    for f, m in ((hlib.check, m_check), (hlib.workdir, m_workdir), (hlib.nfiles, m_nfiles), (hlib.reads, m_reads),
                  (hlib.assume, m_assume), (hlib.reach, m_reach), (hlib.close, m_close),
                 (hlib.nonzero, m_nonzero)):
        ip.models[id(f)] = m


@contextlib.contextmanager
def quiet():
    with open(os.devnull, 'w') as dn, contextlib.redirect_stdout(dn), contextlib.redirect_stderr(dn):
        yield


@contextlib.contextmanager
def patched(stubs):
    saved = []
    try:
        for path, fn in stubs.items():
            o, name, orig = resolve(path)
            saved.append((o, name, orig))
            setattr(o, name, fn)
            if not isinstance(orig, type):
                for mn in REPO_MODULES:
                    m = sys.modules.get(mn)
                    if m is not None:
                        for k, v in list(m.__dict__.items()):
                            if v is orig and not (m is o and k == name):
                                saved.append((m, k, orig))
                                setattr(m, k, fn)
        yield
    finally:
        for o, name, orig in reversed(saved):
            setattr(o, name, orig)


@contextlib.contextmanager
def scratch():
    """the current directory is a scratch directory that is removed afterwards"""
    old = os.getcwd()
    with tempfile.TemporaryDirectory(prefix='verif_n_') as d:
        os.chdir(d)
        real = builtins.open

        def logged(path, mode='r', *a, **k):
            f = real(path, mode, *a, **k)
            if mode in ('r', 'rt'):
                hlib.READS.append(os.path.normpath(path))
            return f
        hlib.READS.clear()
        builtins.open = logged
        try:
            yield
        finally:
            builtins.open = real
            os.chdir(old)


NATIVE_CPU = 15     # seconds of processor time after which a run of the real code counts as endless (normal runs: below one second)


@contextlib.contextmanager
def cpu_limit(seconds):
    if threading.current_thread() is not threading.main_thread():
        yield
        return

    def stop(*_):
        raise TimeoutError('the real code does not return (%d s of processor time)' % seconds)
    old = signal.signal(signal.SIGPROF, stop)
    signal.setitimer(signal.ITIMER_PROF, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


def run_native(unit, inputs):
    """-> ('ok', value) | ('skip',) | ('fail', text)"""
    kw = dict(copy.deepcopy(inputs))
    kw.update(copy.deepcopy(unit.fixed))
    try:
        with quiet(), patched(unit.stubs), np.errstate(all='ignore'), scratch(), cpu_limit(NATIVE_CPU):
            return ('ok', unit.fn(**kw))
    except hlib.Skip:
        return ('skip',)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ' > '.join('%s:%d' % (f.name, f.lineno) for f in tb[-4:])
        return ('fail', '%s: %s [%s]' % (type(e).__name__, str(e)[:300], where))


def jsonable(x):
    x = plain(x)
    try:
        json.dumps(x)
        return x
    except (TypeError, ValueError):
        return repr(x)


def run_unit(unit, seed=1, budget=600, validate=None):
    """symbolic run; returns a plain dict"""
    t0 = time.time()
    S = dict(obligations=0, trivial=0, reach=[], canon=[])
    R = dict(unit=unit.name, bounds=unit.bounds, status='ok', violations=[], notes=[], undecided=0,
             validated=0, samples=[], reach={}, spurious=0)
    V.SQRT.clear()
    V._lpu.clear()
    K = plan(unit.inputs)
    A = Aig(seed=seed, nsamples=K or 96)
    A.complete = K is not None
    ip = Interp(REPO, A)
    ip.extra_roots = (os.path.join(HERE, 'props') + os.sep, os.path.join(HERE, 'hlib.py'))
    ip.native_never |= unit.native_never
    C = Ctx(A, ip)
    hook_models(ip, S)
    for path, fn in unit.stubs.items():
        o, name, orig = resolve(path)
        if callable(fn):
            ip.stubs[id(orig)] = (orig, (lambda fn: lambda ip2, *a, **k: ip2.call(fn, a, k))(fn))
    built = {}
    ret = None
    alive = True
    try:
        kw = {}
        for n, inp in unit.inputs.items():
            kw[n] = inp.build(n, C)
            built[n] = inp
        for n, v in unit.fixed.items():
            kw[n] = ip.from_native(v, {})
        if A.complete:
            A.start_merging()
        try:
            ret = ip.call(unit.fn, (), kw)
        except PyErr as e:
            try:
                ip.raise_guarded(TRUE, e.exc)
            except Dead:
                pass
            alive = False
        except Dead:
            alive = False
    except Unsupported as e:
        R['status'] = 'unsupported'
        R['notes'].append('not encodable: %s at %s' % (e, ip.where()))
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
    except (RecursionError, MemoryError) as e:
        R['status'] = 'unsupported'
        R['notes'].append('engine: %s' % type(e).__name__)
    except Exception as e:
        R['status'] = 'unsupported'
        tb = traceback.extract_tb(e.__traceback__)
        R['notes'].append('engine: %s: %s [%s] at %s' % (type(e).__name__, e, ' > '.join(
            '%s:%d' % (f.name, f.lineno) for f in tb[-3:]), ip.where()))
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()

    def nat(ev):
        return {n: inp.nat(ev) for n, inp in built.items()}

    def confirm(ev, exc):
        inputs = nat(ev)
        r = run_native(unit, inputs)
        if r[0] == 'fail':
            R['violations'].append(dict(inputs=jsonable(inputs), symbolic=exc, native=r[1]))
            return True
        return False

    if R['status'] == 'ok':
        recs = [r for r in ip.raises if not isinstance(r.exc, hlib.Skip)]
        for rec in recs:
            if R['violations'] or time.time() - t0 > budget:
                break
            l = rec.pc.full
            res = A.check(l)
            if res == 'unknown':
                res = hard_check(A, l)
            if res == 'unsat':
                continue
            what = '%s: %s at %s' % (type(rec.exc).__name__, str(rec.exc)[:200], rec.where)
            if res == 'unknown':
                R['undecided'] += 1
                R['notes'].append('undecided: ' + what)
                continue
            ok = False
            # a sample point of the simulation is the simplest witness, then solver models
            sig = A.lsig(l) & A.valid
            tries = 0
            while sig and tries < 3 and not ok:
                i = (sig & -sig).bit_length() - 1
                sig &= sig - 1
                tries += 1
                ok = confirm(SampleEv(C, i), what)
            if not ok and A.model is not None:
                ok = confirm(ModelEv(C, A.model), what)
            blocked = TRUE
            for _ in range(4):
                if ok or A.model is None:
                    break
                m = A.model
                vs = [2 * k for k in range(len(A.kind)) if A.kind[k] == 'var']
                ev = ModelEv(C, m)
                same_ = A.ANDS(v if ev.b(v) else v ^ 1 for v in vs[:60])
                blocked = A.AND(blocked, same_ ^ 1)
                if A.check(A.AND(l, blocked)) != 'sat':
                    break
                ok = confirm(ModelEv(C, A.model), what)
            if not ok:
                R['spurious'] += 1
                R['notes'].append('counterexample not reproduced by the real code: ' + what)
        if not R['violations']:
            d = A.discharge(max(20, budget - (time.time() - t0)))
            if d != 'unsat':
                R['undecided'] += 1
                R['notes'].append('pruned guards: %s' % d)
            confirm_canonical(A, S['canon'], R)
        for label, l in S['reach']:
            R['reach'][label] = R['reach'].get(label, False) or bool(A.lsig(l) & A.valid) or A.check(l) == 'sat'
        if not recs and not alive:
            R['notes'].append('no path reaches the end')
        R['reach']['end'] = alive and (bool(A.lsig(ip.pc.full) & A.valid) or A.check(ip.pc.full) == 'sat')
    # differential validation of the translation on sampled inputs
    if built.keys() == unit.inputs.keys():
        n = unit.nsamples if R['status'] == 'ok' else 60
        k = 0
        seen = set()
        for i in range(A.K):
            if k >= n or time.time() - t0 > budget:
                break
            if not (A.valid >> i) & 1:
                continue
            ev = SampleEv(C, i)
            inputs = nat(ev)
            key = repr(jsonable(inputs))
            if key in seen:
                continue
            seen.add(key)
            k += 1
            r = run_native(unit, inputs)
            if r[0] == 'fail':
                if not R['violations']:
                    R['violations'].append(dict(inputs=jsonable(inputs), symbolic=None, native=r[1]))
                continue
            if R['status'] == 'ok':
                hit = [rec for rec in ip.raises if ev.b(rec.pc.full)]
                if r[0] == 'ok' and any(not isinstance(x.exc, hlib.Skip) for x in hit):
                    R['notes'].append('translation mismatch (raise) on %s' % key[:200])
                elif r[0] == 'ok' and alive and unit.retval and not hit:
                    try:
                        sv = ev_val(ev, ret)
                        if not same(plain(r[1]), sv):
                            R['notes'].append('translation mismatch on %s: %r / %r' % (
                                key[:200], plain(r[1]), sv))
                    except Exception as e:
                        R['notes'].append('validation failed: %r' % e)
                R['validated'] += 1
                if len(R['samples']) < 3:
                    R['samples'].append(dict(unit=unit.name, inputs=jsonable(inputs)))
        R['concrete'] = k
    if R['status'] != 'ok' and not R['violations'] and not unit.inputs:
        r = run_native(unit, {})
        if r[0] == 'fail':
            R['violations'].append(dict(inputs={}, symbolic=None, native=r[1]))
    if R['status'] != 'ok' and not R['violations'] and built.keys() == unit.inputs.keys():
        concolic(unit, C, nat, R, t0, min(budget, 60))
    R.update(obligations=S['obligations'], trivial=S['trivial'], stat=dict(A.stat, nodes=len(A.kind)),
             encoded={k: v for k, v in ip.encoded.items() if not k.startswith(('props', 'hlib'))},
             nativerun=dict(ip.nativerun), stmts=ip.nstmts, branches=ip.nbranch, raises=len(ip.raises),
             assumptions=sorted(ip.notes), wall=time.time() - t0)
    return R


def confirm_canonical(A, pairs, R):
    """equalities of real polynomials decided by their normal form are confirmed by z3 in one query"""
    todo, size = [], 0
    for x, y in pairs:
        size += len(x.t) + len(y.t)
        if size > 40000:
            break
        d = max([abs(float(c)) for c in (x - y).t.values()], default=0)
        if d == 0:
            todo.append(V.lp_z3(x) != V.lp_z3(y))
    if not todo:
        return
    s = z3.Solver()
    s.set('timeout', 20000)
    for a in A.assumps:
        s.add(A.z(a))
    for c in A.real_cons:
        s.add(c)
    s.add(z3.Or(todo))
    t = time.time()
    try:
        r = str(s.check())
    except z3.Z3Exception:
        r = 'unknown'
    A.stat['queries'] += 1
    A.stat['solver_s'] += time.time() - t
    A.stat[r] += 1
    A.stat['equalities_confirmed'] = len(todo) if r == 'unsat' else 0
    if r == 'sat':
        R['undecided'] += 1
        R['notes'].append('normal form disagrees with z3')


def hard_check(A, l):
    """nonlinear real arithmetic in a fresh non-incremental solver"""
    for tac in ('default', 'qfnra-nlsat'):
        s = z3.Solver() if tac == 'default' else z3.Then('simplify', 'purify-arith', 'elim-term-ite', 'tseitin-cnf',
                                                         'qfnra-nlsat').solver()
        s.set('timeout', 60000)
        for a in A.assumps:
            s.add(A.z(a))
        for c in A.real_cons:
            s.add(c)
        s.add(A.z(l))
        t = time.time()
        try:
            r = str(s.check())
        except z3.Z3Exception:
            r = 'unknown'
        A.stat['queries'] += 1
        A.stat['solver_s'] += time.time() - t
        if r != 'unknown':
            A.stat[r] += 1
            A.model = s.model() if r == 'sat' else None
            return r
    return 'unknown'


def concolic(unit, C, nat, R, t0, budget):
    """fallback when the code could not be encoded: real code on solver-enumerated inputs"""
    A = C.aig
    vs = [2 * k for k in range(len(A.kind)) if A.kind[k] == 'var' and not A.payload[k].startswith('~')]
    ins = []
    for inp in unit.inputs.values():
        pass
    names = set()
    s = z3.SolverFor('QF_FD')
    for a in A.assumps:
        if not A.hasreal[a >> 1]:
            s.add(A.z(a))
    zs = [A.z(v) for v in vs]
    n = 0
    while n < 400 and time.time() - t0 < budget and zs:
        if s.check() != z3.sat:
            R['notes'].append('all %d discrete inputs enumerated' % n)
            break
        m = s.model()
        vals = [z3.is_true(m.eval(z, model_completion=True)) for z in zs]
        s.add(z3.Or([z != v for z, v in zip(zs, vals)]))
        n += 1

        class E(ModelEv):
            def frac(self, name):
                return C.aig.real_samples[name][n % C.aig.K]
        inputs = nat(E(C, m))
        r = run_native(unit, inputs)
        if r[0] == 'fail':
            R['violations'].append(dict(inputs=jsonable(inputs), symbolic=None, native=r[1]))
            break
    R['concrete'] = R.get('concrete', 0) + n


def fallback_unit(unit, seed, why):
    """concrete runs only, on sampled and solver-enumerated inputs"""
    t0 = time.time()
    R = dict(unit=unit.name, bounds=unit.bounds, status='unsupported', violations=[], notes=[why], undecided=0,
             validated=0, samples=[], reach={}, spurious=0)
    V.SQRT.clear()
    V._lpu.clear()
    K = plan(unit.inputs)
    A = Aig(seed=seed, nsamples=min(K or 96, 400))
    for i in unit.inputs.values():
        pass
    ip = Interp(REPO, A)
    C = Ctx(A, ip)
    for n, i in unit.inputs.items():
        i.build(n, C)
    n = 0
    for i in range(A.K):
        if time.time() - t0 > 40:
            break
        if not (A.valid >> i) & 1:
            continue
        ev = SampleEv(C, i)
        inputs = {k: inp.nat(ev) for k, inp in unit.inputs.items()}
        r = run_native(unit, inputs)
        n += 1
        if r[0] == 'fail':
            R['violations'].append(dict(inputs=jsonable(inputs), symbolic=None, native=r[1]))
            break
    R['concrete'] = R['validated'] = n
    R['wall'] = time.time() - t0
    return R


def revive(inp, x):
    """plain JSON data back to what an input gives the real code"""
    if isinstance(inp, (Vec, Graph)) and not getattr(inp, 'aslist', False):
        return np.array(x, dtype=float)
    if isinstance(inp, Seq):
        r = [revive(i, y) if isinstance(i, Inp) else i for i, y in zip(inp.items, x)]
        return tuple(r) if inp.tup else r
    if isinstance(inp, Choice):
        for v in inp.vals:
            if jsonable(v) == x:
                return v
    return x


def replay(unit, inputs):
    kw = {}
    for n, i in unit.inputs.items():
        kw[n] = revive(i, inputs[n] if n in inputs else inputs[repr(n)])
    return run_native(unit, kw)
