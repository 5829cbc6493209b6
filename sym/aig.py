"""Hash-consed Boolean DAG (AND/NOT) with canonical flattened conjunctions, mutex
knowledge about one-hot inputs, bit-parallel simulation signatures and a z3 back end.

Literals are ints: 2*k / 2*k+1 (complemented).  0 is FALSE, 1 is TRUE.
A non-zero signature is a witness that a guard is satisfiable.  A zero signature prunes a
guard at once only when the simulation covers every valid assignment of the discrete inputs
(`complete`) and the guard has no real arithmetic; these guards are logged and z3 has to
confirm at the end that none of them is satisfiable (`discharge`).  Every other "infeasible"
conclusion and every verdict on an obligation comes from z3 directly.
"""
import os
import random
import shutil
import subprocess
import tempfile
import time
from fractions import Fraction
import z3

FALSE, TRUE = 0, 1
CONJ_CAP = 28
SATBIN = shutil.which('kissat') or shutil.which('cadical')
if SATBIN is None and os.path.exists('/app/lean4-4.33.0/build/release/stage1/bin/cadical'):
    SATBIN = '/app/lean4-4.33.0/build/release/stage1/bin/cadical'


class SatModel:
    """values of the Boolean inputs from a SAT solver"""

    def __init__(self, vals):
        self.vals = vals


class Aig:
    def __init__(self, seed=1, nsamples=96, timeout_ms=60000):
        z3.set_param('smt.random_seed', seed)
        self.rng = random.Random(seed)
        self.K = nsamples
        self.ALL = (1 << nsamples) - 1
        self.valid = self.ALL
        # node 0 = constant false
        self.conj = [frozenset()]       # flattened AND leaves (literals) or None for leaves
        self.sig = [0]
        self.kind = ['const']
        self.payload = [None]
        self.groups = [None]            # for vars: dict gid -> var node
        self.table = {}
        self.zmemo = {}
        self.lmemo = {}
        self.lin_cons = []
        self.mono_cons = []
        self.lcons = 0
        self.linear = False      # build expressions with nonlinear monomials as opaque reals
        self.monos = {}
        self.names = {}
        self.assumps = []
        self.real_nodes = set()         # nodes whose cone has a real-arithmetic atom
        self.hasreal = [False]
        self.depth = [0]
        self.solver = None
        self.rsolver = None
        self.lsolver = None
        self.fcache = {}
        self.lost = 0           # feasibility questions left open (the branch is then kept)
        self.stat = dict(queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, sim_hits=0, nodes=0)
        self.timeout_ms = timeout_ms
        self.reals = {}                 # name -> z3 Real
        self.real_samples = {}          # name -> list of Fractions
        self.real_cons = []             # z3 constraints on reals
        self.intervals = {}
        self.newmodels = 0
        self.complete = False
        self.pruned = set()
        self.merging = False
        self.bysig = {}
        self.merged = []
        self.pbinfo = {}                # table key of an integer atom -> (op, [(lit, coeff)])

    # ------------------------------------------------------------------ construction
    def _new(self, kind, conj, sig, payload=None, hasreal=False, depth=0, groups=None):
        k = len(self.conj)
        self.conj.append(conj)
        self.sig.append(sig)
        self.kind.append(kind)
        self.payload.append(payload)
        self.hasreal.append(hasreal)
        self.depth.append(depth)
        self.groups.append(groups)
        return k

    def var(self, name, bits, groups=()):
        """fresh Boolean input; bits = its value on the K samples"""
        k = self._new('var', None, bits & self.ALL, name)
        if name.startswith('~'):
            self.complete = False
        self.groups[k] = {g: k for g in groups}
        self.names[name] = 2 * k
        return 2 * k

    def atom(self, key, zfun, sigfun, hasreal):
        """leaf defined by a z3 expression thunk (arithmetic atom)"""
        kk = ('atom', key)
        r = self.table.get(kk)
        if r is None:
            k = self._new('atom', None, sigfun() & self.ALL, zfun, hasreal=hasreal)
            r = 2 * k
            self.table[kk] = r
        return r

    def lsig(self, l):
        s = self.sig[l >> 1]
        return (~s & self.ALL) if l & 1 else s

    def leaves(self, l):
        """flattened conjunction of literal l"""
        if not l & 1:
            c = self.conj[l >> 1]
            if c is not None:
                return c
        return (l,)

    def AND(self, a, b):
        if a == FALSE or b == FALSE or a == (b ^ 1):
            return FALSE
        if a == TRUE or a == b:
            return b
        if b == TRUE:
            return a
        if a > b:
            a, b = b, a
        key = (a, b)
        r = self.table.get(key)
        if r is None:
            r = self._and(a, b)
            self.table[key] = r
        return r

    def _and(self, a, b):
        la = self.leaves(a)
        lb = self.leaves(b)
        if len(la) + len(lb) > CONJ_CAP:
            for l in la if len(la) < len(lb) else lb:
                other = lb if len(la) < len(lb) else la
                if (l ^ 1) in other:
                    return FALSE
            return self._mk2(a, b)
        S = set(la)
        for l in lb:
            if (l ^ 1) in S:
                return FALSE
            S.add(l)
        return self._norm(S, a, b)

    def _norm(self, S, a=None, b=None):
        """normalise a set of literals (conjunction)"""
        # mutex groups among positive vars
        gm = None
        for l in S:
            if not l & 1:
                g = self.groups[l >> 1]
                if g:
                    if gm is None:
                        gm = {}
                    for gid, v in g.items():
                        o = gm.get(gid)
                        if o is None:
                            gm[gid] = v
                        elif o != v:
                            return FALSE
        changed = True
        rounds = 0
        while changed and rounds < 6:
            changed = False
            rounds += 1
            for l in list(S):
                if l & 1:
                    k = l >> 1
                    c = self.conj[k]
                    if c is None:
                        if gm:
                            g = self.groups[k]
                            if g and any(gm.get(gid, k) != k for gid in g):
                                S.discard(l)      # implied by a positive mutex partner
                        continue
                    # l = not(AND c)
                    rest = []
                    drop = False
                    hit = False
                    for m in c:
                        if m in S:
                            hit = True
                        elif (m ^ 1) in S:
                            drop = True
                            break
                        elif gm and not m & 1 and self.groups[m >> 1] and \
                                any(gm.get(gid, m >> 1) != m >> 1 for gid in self.groups[m >> 1]):
                            drop = True           # m is false here
                            break
                        else:
                            rest.append(m)
                    if drop:
                        S.discard(l)
                        continue
                    if hit:
                        S.discard(l)
                        if not rest:
                            return FALSE
                        n = self._conj_of(rest) ^ 1
                        changed = True
                        if n == FALSE:
                            return FALSE
                        if n == TRUE:
                            continue
                        for m in self.leaves(n):
                            if (m ^ 1) in S:
                                return FALSE
                            S.add(m)
                            if not m & 1:
                                g = self.groups[m >> 1]
                                if g:
                                    if gm is None:
                                        gm = {}
                                    for gid, v in g.items():
                                        o = gm.get(gid)
                                        if o is None:
                                            gm[gid] = v
                                        elif o != v:
                                            return FALSE
        return self._conj_of(S)

    def _conj_of(self, S):
        if not S:
            return TRUE
        if len(S) == 1:
            return next(iter(S))
        fs = frozenset(S)
        if len(fs) == 1:
            return next(iter(fs))
        r = self.table.get(fs)
        if r is None:
            sig = self.ALL
            hr = False
            d = 0
            for l in fs:
                s = self.sig[l >> 1]
                sig &= ~s if l & 1 else s
                hr = hr or self.hasreal[l >> 1]
                dd = self.depth[l >> 1]
                if dd > d:
                    d = dd
            sig &= self.ALL
            r = 2 * self._new('and', fs, sig, None, hr, d + 1)
            if self.merging and not hr and self.complete:
                r = self._represent(r, sig & self.valid)
            self.table[fs] = r
        return r

    def _represent(self, r, s):
        """the simulation covers every valid input: a guard equal to an older one on all of them is
        replaced by it; the equality is logged and confirmed by the solver in discharge()"""
        if s == 0:
            self.pruned.add(r)
            return FALSE
        if s == self.valid:
            self.pruned.add(r ^ 1)
            return TRUE
        o = self.bysig.get(s)
        if o is None:
            o = self.bysig.get(self.valid ^ s)
            if o is not None:
                o ^= 1
        if o is None:
            self.bysig[s] = r
            return r
        self.merged.append((r, o))
        return o

    def start_merging(self):
        """inputs are complete: from now on use representatives"""
        self.merging = True
        for k in range(1, len(self.kind)):
            if not self.hasreal[k]:
                s = self.sig[k] & self.valid
                if s and s != self.valid and (self.valid ^ s) not in self.bysig:
                    self.bysig.setdefault(s, 2 * k)

    def _mk2(self, a, b):
        # too wide to flatten: treat operands as opaque leaves through wrapper nodes
        return self._conj_of((self._opaque(a), self._opaque(b)))

    def _opaque(self, a):
        if a & 1 or self.conj[a >> 1] is None:
            return a
        key = ('opq', a)
        r = self.table.get(key)
        if r is None:
            k = a >> 1
            r = 2 * self._new('buf', None, self.sig[k], a, self.hasreal[k], self.depth[k])
            self.table[key] = r
        return r

    def NOT(self, a):
        return a ^ 1

    def OR(self, a, b):
        if a == TRUE or b == TRUE or a == (b ^ 1):
            return TRUE
        if a == FALSE or a == b:
            return b
        if b == FALSE:
            return a
        # (x & y) | (x & !y) = x
        if not a & 1 and not b & 1:
            ca, cb = self.conj[a >> 1], self.conj[b >> 1]
            if ca is not None and cb is not None:
                if len(ca) == len(cb):
                    d = ca - cb
                    if len(d) == 1:
                        e = cb - ca
                        (x,), (y,) = tuple(d), tuple(e)
                        if x == y ^ 1:
                            return self._conj_of(ca & cb)
                if ca <= cb:
                    return a
                if cb <= ca:
                    return b
            elif ca is not None and b in ca:
                return b
            elif cb is not None and a in cb:
                return a
        return self.AND(a ^ 1, b ^ 1) ^ 1

    def XOR(self, a, b):
        if a == b:
            return FALSE
        if a == b ^ 1:
            return TRUE
        if a < 2:
            return b ^ (a & 1) if a == TRUE else b
        if b < 2:
            return a ^ 1 if b == TRUE else a
        return self.OR(self.AND(a, b ^ 1), self.AND(a ^ 1, b))

    def IFF(self, a, b):
        return self.XOR(a, b) ^ 1

    def MUX(self, c, a, b):
        if c == TRUE:
            return a
        if c == FALSE:
            return b
        if a == b:
            return a
        if a == TRUE:
            return self.OR(c, b)
        if a == FALSE:
            return self.AND(c ^ 1, b)
        if b == TRUE:
            return self.OR(c ^ 1, a)
        if b == FALSE:
            return self.AND(c, a)
        return self.OR(self.AND(c, a), self.AND(c ^ 1, b))

    def ANDS(self, it):
        r = TRUE
        for x in it:
            r = self.AND(r, x)
            if r == FALSE:
                return FALSE
        return r

    def ORS(self, it):
        r = FALSE
        for x in it:
            r = self.OR(r, x)
            if r == TRUE:
                return TRUE
        return r

    # ------------------------------------------------------------------ solver
    def z(self, l):
        """z3 expression of literal l (memoised, iterative)"""
        memo = self.lmemo if self.linear else self.zmemo
        k = l >> 1
        if k not in memo:
            stack = [k]
            while stack:
                n = stack[-1]
                if n in memo:
                    stack.pop()
                    continue
                kd = self.kind[n]
                if kd == 'const':
                    memo[n] = z3.BoolVal(False)
                elif kd == 'var':
                    memo[n] = z3.Bool(self.payload[n])
                elif kd == 'atom':
                    memo[n] = self.payload[n]()
                elif kd == 'buf':
                    m = self.payload[n] >> 1
                    if m not in memo:
                        stack.append(m)
                        continue
                    memo[n] = memo[m]
                else:
                    miss = [m >> 1 for m in self.conj[n] if (m >> 1) not in memo]
                    if miss:
                        stack.extend(miss)
                        continue
                    memo[n] = z3.And([z3.Not(memo[m >> 1]) if m & 1 else memo[m >> 1]
                                      for m in sorted(self.conj[n])])
                stack.pop()
        e = memo[k]
        return z3.Not(e) if l & 1 else e

    def assume(self, l):
        if l == TRUE:
            return
        self.assumps.append(l)
        self.valid &= self.lsig(l)
        if self.solver is not None:
            if not self.hasreal[l >> 1]:
                self.solver.add(self.z(l))
            self.rsolver.add(self.z(l))
        self.lsolver = None

    def add_real_constraint(self, zexpr, linear=None):
        """linear: thunk giving the same constraint with opaque monomials"""
        self.real_cons.append(zexpr)
        self.lin_cons.append(linear)
        if self.rsolver is not None:
            self.rsolver.add(zexpr)
        self.lsolver = None

    def mono(self, m):
        """opaque real for a nonlinear monomial (linear mode)"""
        if m not in self.monos:
            v = z3.Real('mono:' + '*'.join(m))
            self.monos[m] = v
            c = {}
            for x in m:
                c[x] = c.get(x, 0) + 1
            if all(k % 2 == 0 or x.startswith('~sqrt') for x, k in c.items()):
                self.mono_cons.append(v >= 0)
        return self.monos[m]

    def _linear_unsat(self, l, cube, timeout_ms):
        """linear abstraction: unsat here is unsat"""
        self.linear = True
        try:
            n = len(self.mono_cons)
            if self.lsolver is None:
                self.lsolver = z3.Solver()
                for g in self.mutexes():
                    self.lsolver.add(z3.AtMost(*[self.z(v) for v in g], 1))
                for a in self.assumps:
                    self.lsolver.add(self.z(a))
                for c, f in zip(self.real_cons, self.lin_cons):
                    self.lsolver.add(c if f is None else f())
                self.lcons = 0
            q = [self.z(l)] + [self.z(c) for c in cube]
            if not self.monos:
                return False
            for c in self.mono_cons[self.lcons:]:
                self.lsolver.add(c)
            self.lcons = len(self.mono_cons)
            self.lsolver.set('timeout', max(1, int(timeout_ms)))
            try:
                return str(self.lsolver.check(*q)) == 'unsat'
            except z3.Z3Exception:
                return False
        finally:
            self.linear = False

    def _mk_solvers(self):
        self.solver = z3.SolverFor('QF_FD')
        self.rsolver = z3.Solver()
        for s in (self.solver, self.rsolver):
            s.set('timeout', self.timeout_ms)
        self._base(self.solver, False)
        self._base(self.rsolver, True)

    def _base(self, s, real):
        for g in self.mutexes():
            s.add(z3.AtMost(*[self.z(v) for v in g], 1))
        for a in self.assumps:
            if real or not self.hasreal[a >> 1]:
                s.add(self.z(a))
        if real:
            for c in self.real_cons:
                s.add(c)

    def _query(self, l, cube, timeout_ms):
        s = self.rsolver if self.hasreal[l >> 1] else self.solver
        t = time.time()
        s.set('timeout', max(1, int(timeout_ms)))
        if s is self.rsolver and self._linear_unsat(l, cube, timeout_ms):
            self.stat['solver_s'] += time.time() - t
            self.stat['queries'] += 1
            return 'unsat'
        try:
            r = str(s.check(self.z(l), *[self.z(c) for c in cube]))
        except z3.Z3Exception:
            r = 'unknown'
        self.stat['solver_s'] += time.time() - t
        self.stat['queries'] += 1
        if r == 'sat':
            self.model = s.model()
        return r

    def support(self, l):
        """input variables in the cone of l, in creation order"""
        seen, vs, stack = set(), [], [l >> 1]
        while stack:
            k = stack.pop()
            if k in seen:
                continue
            seen.add(k)
            if self.kind[k] == 'var':
                vs.append(2 * k)
            elif self.kind[k] == 'buf':
                stack.append(self.payload[k] >> 1)
            elif self.conj[k] is not None:
                stack.extend(m >> 1 for m in self.conj[k])
        return sorted(vs)

    def check(self, l, timeout_ms=None):
        """'sat' / 'unsat' / 'unknown' of assumptions & l.  Leaves model in self.model.
        Hard queries are decided by cube and conquer over the inputs."""
        if l == FALSE:
            return 'unsat'
        if self.solver is None:
            self._mk_solvers()
        self.model = None
        limit = timeout_ms or self.timeout_ms
        if limit <= 4000:
            r = self._query(l, (), limit)
        else:
            r = self._query(l, (), 500)
            if r == 'unknown' and not self.hasreal[l >> 1]:
                r = self.sat([l], limit / 1000.) or 'unknown'
            if r == 'unknown':
                r = self._cubes(l, time.time() + limit / 1000.)
        self.stat[r] += 1
        return r

    def _cubes(self, l, deadline):
        vs = self.support(l)
        out = 'unsat'
        stack = [((), 0)]
        while stack:
            cube, i = stack.pop()
            left = deadline - time.time()
            if left <= 0:
                return 'unknown'
            last = i >= len(vs)
            r = self._query(l, cube, min(left * 1000, 20000 if last else 60 if i else 10))
            if r == 'sat':
                return r
            if r == 'unknown':
                if last:
                    out = 'unknown'
                    continue
                v = vs[i]
                stack.append((cube + (v,), i + 1))
                stack.append((cube + (v ^ 1,), i + 1))
        return out

    def mutexes(self):
        """groups of inputs of which at most one is true"""
        gr = {}
        for k, g in enumerate(self.groups):
            if g and self.kind[k] == 'var':
                for gid in g:
                    gr.setdefault(gid, []).append(2 * k)
        return [v for v in gr.values() if len(v) > 1]

    def pb_circuit(self, op, ts):
        """adder circuit for sum(c*lit) op 0"""
        k, pos = 0, []
        for g, c in ts:
            if g == TRUE:
                k += c
            elif c >= 0:
                pos.append((g, c))
            else:
                pos.append((g ^ 1, -c))
                k += c
        bound = -k                      # sum(pos) op bound
        if op == '<':
            bound -= 1
        if bound < 0:
            return FALSE
        cols = {}
        for g, c in pos:
            b = 0
            while c:
                if c & 1:
                    cols.setdefault(b, []).append(g)
                c >>= 1
                b += 1
        out = []
        b = 0
        while b <= max(cols, default=-1):
            xs = cols.get(b, [])
            while len(xs) > 1:
                x, y = xs.pop(0), xs.pop(0)
                z = xs.pop(0) if xs else FALSE
                t = self.XOR(x, y)
                xs.append(self.XOR(t, z))
                cols.setdefault(b + 1, []).append(self.OR(self.AND(x, y), self.AND(t, z)))
            out.append(xs[0] if xs else FALSE)
            b += 1
        n = max(len(out), bound.bit_length())
        out += [FALSE] * (n - len(out))
        if op == '==':
            return self.ANDS(o if (bound >> i) & 1 else o ^ 1 for i, o in enumerate(out))
        le = TRUE
        for i, o in enumerate(out):
            le = self.OR(o ^ 1, le) if (bound >> i) & 1 else self.AND(o ^ 1, le)
        return le

    def cnf(self, outs):
        """Tseitin clauses (DIMACS text) of assumptions & mutexes & (some literal of outs)"""
        num = {}
        cl = []

        def lit(l):
            k = l >> 1
            while self.kind[k] == 'buf':
                l = self.payload[k] ^ (l & 1)
                k = l >> 1
            if k not in num:
                num[k] = len(num) + 1
                todo.append(k)
            return -num[k] if l & 1 else num[k]
        todo = []
        pbs = {self.table[key]: v for key, v in self.pbinfo.items()}
        roots = [a for a in self.assumps if not self.hasreal[a >> 1]]
        for a in roots:
            cl.append('%d 0' % lit(a))
        cl.append(' '.join('%d' % lit(l) for l in outs) + ' 0')
        for g in self.mutexes():
            g = [lit(v) for v in g]
            if len(g) <= 6:
                cl += ['%d %d 0' % (-g[i], -g[j]) for i in range(len(g)) for j in range(i)]
                continue
            s = None
            for x in g:
                n = ('amo', len(num))
                num[n] = len(num) + 1
                t = num[n]
                cl.append('%d %d 0' % (-x, t))
                if s is not None:
                    cl.append('%d %d 0' % (-s, t))
                    cl.append('%d %d 0' % (-s, -x))
                s = t
        while todo:
            k = todo.pop()
            kd = self.kind[k]
            if kd == 'const':
                cl.append('%d 0' % -num[k])
            elif kd == 'atom':
                c = self.pb_circuit(*pbs[2 * k])
                cl += ['%d %d 0' % (-num[k], lit(c)), '%d %d 0' % (num[k], -lit(c))]
            elif kd == 'and':
                ms = [lit(m) for m in self.conj[k]]
                x = num[k]
                cl += ['%d %d 0' % (-x, m) for m in ms]
                cl.append('%d %s 0' % (x, ' '.join('%d' % -m for m in ms)))
        self._num = num
        return 'p cnf %d %d\n' % (len(num), len(cl)) + '\n'.join(cl) + '\n'

    def sat(self, outs, limit):
        """external SAT solver on assumptions & (some literal of outs) -> 'sat'/'unsat'/'unknown';
        None when no solver is installed"""
        if SATBIN is None:
            return None
        t = time.time()
        text = self.cnf(outs)
        f = tempfile.NamedTemporaryFile('w', suffix='.cnf', delete=False)
        f.write(text)
        f.close()
        vals = None
        try:
            out = subprocess.run([SATBIN, '-q', f.name], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                 timeout=max(1, limit), text=True)
            r = {10: 'sat', 20: 'unsat'}.get(out.returncode, 'unknown')
            if r == 'sat':
                vals = {}
                for line in out.stdout.splitlines():
                    if line.startswith('v '):
                        for w in line[2:].split():
                            vals[abs(int(w))] = int(w) > 0
        except (subprocess.TimeoutExpired, OSError):
            r = 'unknown'
        finally:
            os.unlink(f.name)
        if vals is not None:
            num = self._num
            self.model = SatModel({k: vals.get(v, False) for k, v in num.items() if not isinstance(k, tuple)
                                   and self.kind[k] == 'var'})
        self.stat['solver_s'] += time.time() - t
        self.stat['sat_queries'] = self.stat.get('sat_queries', 0) + 1
        self.stat['queries'] += 1
        return r

    def discharge(self, limit):
        """a solver confirms that no guard pruned by the exhaustive simulation is satisfiable:
        -> 'unsat' (confirmed), 'sat' or 'unknown'"""
        self.complete = False
        if not self.pruned and not self.merged:
            return 'unsat'
        self.stat['discharged'] = len(self.pruned)
        self.stat['merged'] = len(self.merged)
        if self.solver is None:
            self._mk_solvers()
        ps = sorted(self.pruned) + [self.XOR(a, b) for a, b in self.merged]
        r = self.sat(ps, limit)
        if r is None:
            s = z3.SolverFor('QF_FD')
            self._base(s, False)
            s.add(z3.Or([self.z(l) for l in ps]))
            s.set('timeout', int(limit * 1000))
            t = time.time()
            r = str(s.check())
            self.stat['solver_s'] += time.time() - t
            self.stat['queries'] += 1
        self.stat[r] += 1
        return r

    def infeasible(self, l):
        """True only when z3 proves assumptions & l unsatisfiable"""
        if l == FALSE:
            return True
        if l == TRUE:
            return False
        if self.lsig(l) & self.valid:
            self.stat['sim_hits'] += 1
            return False
        if self.complete and not self.hasreal[l >> 1]:
            self.pruned.add(l)
            return True
        r = self.fcache.get(l)
        if r is None:
            res = self.check(l, 4000 if self.lost < 2 else 300)
            r = res == 'unsat'
            if res == 'unknown':
                self.lost += 1
            self.fcache[l] = r
            if res == 'sat':
                self.newmodels += 1
        return r

    def entailed(self, l):
        return self.infeasible(l ^ 1)
