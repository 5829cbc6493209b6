"""Merging symbolic interpreter for Python source (guarded execution, one pass over all paths)."""
import ast
import builtins
import contextlib
import functools
import inspect
import os
import pickle
import types
import numpy as np
from fractions import Fraction
from .aig import FALSE, TRUE
from .state import stateful
from .vals import *
from .vals import count_u, st, PC, rel, mku, mkb, alts, feasible_alts, ite, truth, eq, cmp_lit, num_op, PRIM, UNBOUND
from . import vals as V


class Dead(Exception):
    """current path condition became false; unwinds to the nearest merge point"""


class PyErr(Exception):
    """an exception of the interpreted program (raised under the whole current pc)"""

    def __init__(self, exc):
        Exception.__init__(self, repr(exc))
        self.exc = exc


class RaiseRec:
    __slots__ = ('pc', 'exc', 'snaps', 'where')

    def __init__(self, pc, exc, snaps, where):
        self.pc, self.exc, self.snaps, self.where = pc, exc, snaps, where


class Env:
    __slots__ = ('vars', 'parent', 'globs', 'gnames', 'nnames')

    def __init__(self, parent, globs):
        self.vars = {}
        self.parent = parent
        self.globs = globs
        self.gnames = ()
        self.nnames = ()


class Frame:
    __slots__ = ('env', 'name', 'rets', 'loops', 'yields', 'entry', 'line', 'unit')

    def __init__(self, env, name, entry):
        self.env, self.name, self.entry = env, name, entry
        self.rets = []
        self.loops = []
        self.yields = None
        self.line = 0
        self.unit = False


class Loop:
    __slots__ = ('conts', 'breaks')

    def __init__(self):
        self.conts, self.breaks = [], []


class SFunc:
    __slots__ = ('node', 'env', 'globs', 'defaults', 'kwdefaults', 'name', 'qual', 'isgen')

    def __init__(self, node, env, globs, defaults, kwdefaults, name, qual):
        self.node, self.env, self.globs = node, env, globs
        self.defaults, self.kwdefaults, self.name, self.qual = defaults, kwdefaults, name, qual
        self.isgen = None


class SBound:
    __slots__ = ('fn', 'self')

    def __init__(self, fn, slf):
        self.fn, self.self = fn, slf


class SMethod:
    """method of a modelled value"""
    __slots__ = ('obj', 'name')

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%',
          ast.Pow: '**', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<',
          ast.RShift: '>>', ast.MatMult: '@'}

SIMPLE_IMMUT = (types.FunctionType, types.BuiltinFunctionType, types.ModuleType, type,
                types.MethodType, types.MethodDescriptorType, types.WrapperDescriptorType)


class IOUsed(BaseException):
    """a natively evaluated function touches the file system: it has to be interpreted"""


@contextlib.contextmanager
def no_io():
    def stop(*a, **k):
        raise IOUsed()
    saved = [(o, n, getattr(o, n)) for o, n in ((builtins, 'open'), (os, 'mkdir'), (os, 'makedirs'), (os, 'listdir'), (os, 'walk'))]
    try:
        for o, n, _ in saved:
            setattr(o, n, stop)
        yield
    finally:
        for o, n, f in saved:
            setattr(o, n, f)


PYLIB = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'pylib.py')


def fields(x):
    d = dict(getattr(x, '__dict__', {}))
    for c in type(x).__mro__:
        sl = c.__dict__.get('__slots__', ())
        for n in (sl,) if isinstance(sl, str) else sl:
            if n not in d and hasattr(x, n):
                d[n] = getattr(x, n)
    return d


def desugar_match(s):
    """a match statement as a chain of if statements"""
    L = lambda n: ast.copy_location(n, s)
    name = lambda n, c: L(ast.Name(n, c))
    hidden = '.match%d' % s.lineno

    def load(path):
        e = name(hidden, ast.Load())
        for k in path:
            e = L(ast.Subscript(e, L(ast.Constant(k)), ast.Load()))
        return e

    def bind(n, path):      # a true expression that binds
        return L(ast.List([L(ast.NamedExpr(name(n, ast.Store()), load(path)))], ast.Load()))

    def both(xs):
        xs = [x for x in xs if x is not None]
        return None if not xs else xs[0] if len(xs) == 1 else L(ast.BoolOp(ast.And(), xs))

    def test(p, path):      # None: always
        if isinstance(p, ast.MatchValue):
            return L(ast.Compare(load(path), [ast.Eq()], [p.value]))
        if isinstance(p, ast.MatchSingleton):
            return L(ast.Compare(load(path), [ast.Is()], [L(ast.Constant(p.value))]))
        if isinstance(p, ast.MatchAs):
            t = test(p.pattern, path) if p.pattern is not None else None
            return both([t, bind(p.name, path) if p.name else None])
        if isinstance(p, ast.MatchOr):
            ts = [test(q, path) for q in p.patterns]
            return None if any(t is None for t in ts) else L(ast.BoolOp(ast.Or(), ts))
        if isinstance(p, ast.MatchSequence) and not any(isinstance(q, ast.MatchStar) for q in p.patterns):
            n = L(ast.Compare(L(ast.Call(L(ast.Constant(len)), [load(path)], [])), [ast.Eq()],
                              [L(ast.Constant(len(p.patterns)))]))
            return both([n] + [test(q, path + [k]) for k, q in enumerate(p.patterns)])
        raise Unsupported('match pattern %s' % type(p).__name__)
    out = []
    for c in reversed(s.cases):
        t = both([test(c.pattern, []), c.guard])
        out = c.body if t is None else [L(ast.If(t, c.body, out))]
    return [L(ast.Assign([name(hidden, ast.Store())], s.subject))] + out



def keeps_state(repo):
    for name in sorted(os.listdir(repo)):
        if name.endswith('.py'):
            try:
                with open(os.path.join(repo, name)) as f:
                    r = stateful(ast.parse(f.read()))
            except (OSError, SyntaxError, ValueError):
                continue
            if r:
                return '%s: %s' % (name, r)
    return None


class Interp:
    def __init__(self, repo, aig):
        self.repo = os.path.realpath(repo)
        self.extra_roots = ()    # property units are interpreted too
        self.match_memo = {}
        self.aig = aig
        st.aig, st.ip = aig, self
        self.src = {}
        self.pc = PC(None, TRUE)
        self.raises = []
        self.tries = []
        self.frames = []
        self.stubs = {}
        self.native_ok = not keeps_state(self.repo)
        self.cached = {}         # results of functools caches: (function, arguments) -> value
        self.native_never = set()
        self.gover = {}          # overlay of module globals: (id(globs), name) -> value
        self.native_memo = {}
        self.fn_memo = {}
        self.nat_ids = {}        # id(native mutable) -> (native, engine value)
        self.encoded = {}        # repo functions interpreted symbolically: qual -> statements executed
        self.nativerun = {}      # repo functions run natively on concrete arguments
        self.nstmts = 0
        self.nbranch = 0
        self.maxiter = 2000
        self.notes = set()
        self.vfs = {}
        self.isrepo_memo = {}
        from . import models
        self.models = models.build(self)
        self.modelmod = models

    # -- pc is mirrored into st for vals
    @property
    def pc(self):
        return st.pc

    @pc.setter
    def pc(self, p):
        st.pc = p

    # ------------------------------------------------------------------ helpers
    def infeasible(self, l):
        return self.aig.infeasible(l)

    def raise_guarded(self, g, exc):
        """program exception under guard g (relative to the current pc)"""
        p = PC(self.pc, g)
        if p.full == FALSE or self.infeasible(p.full):
            return
        where = self.where()
        self.raises.append(RaiseRec(p, exc, {id(t): dict(e.vars) for t, e in self.tries}, where))
        self.pc = PC(self.pc, g ^ 1)
        if self.pc.full == FALSE or g == TRUE or self.infeasible(self.pc.full):
            if self.pc.full != FALSE:
                self.pc = PC(self.pc, FALSE)
            raise Dead()

    def where(self):
        return ' > '.join('%s:%d' % (f.name, f.line) for f in self.frames[-3:])

    def join(self, base, states):
        """states: [(pc, vars)] all derived from base and exclusive"""
        states = [s for s in states if s[0].full != FALSE]
        if not states:
            return PC(base, FALSE), None
        if len(states) == 1:
            return states[0]
        A = self.aig
        rels = [rel(p, base) for p, _ in states]
        tot = A.ORS(rels)
        vs = states[-1][1]
        if vs is not None:
            for (p, v), r in zip(reversed(states[:-1]), reversed(rels[:-1])):
                vs = self.merge_vars(r, v, vs)
        return (base if tot == TRUE else PC(base, tot)), vs

    def merge_vars(self, c, a, b):
        if a is b:
            return a
        out = dict(b)
        for k, v in a.items():
            w = b.get(k, UNBOUND)
            if v is not w:
                out[k] = ite(c, v, w)
        for k, w in b.items():
            if k not in a:
                out[k] = ite(c, UNBOUND, w)
        return out

    def map_alts(self, v, f):
        """apply f to each alternative of a union under its guard, merging results"""
        if isinstance(v, LP):
            u = V.lp_to_u(v)
            if u is None:
                return f(v)
            v = u
        if not isinstance(v, (U, SB)):
            return f(v)
        fa = feasible_alts(v)
        if len(fa) == 1:
            if fa[0][1] is UNBOUND:
                raise PyErr(NameError('unbound'))
            return f(fa[0][1])
        base = self.pc
        out, pcs = [], []
        for g, x in fa:
            if x is UNBOUND:
                self.raise_guarded(g, UnboundLocalError('unbound variable'))
                base = self.pc
                continue
        for g, x in fa:
            if x is UNBOUND:
                continue
            p = PC(base, g)
            if p.full == FALSE:
                continue
            self.pc = p
            try:
                r = self.guarded(lambda: f(x))
                out.append((g, r))
                pcs.append((self.pc, None))
            except Dead:
                pass
        self.pc, _ = self.join(base, pcs)
        if not out:
            raise Dead()
        return mku(out)

    def guarded(self, thunk):
        """run thunk; a PyErr becomes a guarded raise of the whole current pc"""
        try:
            return thunk()
        except PyErr as e:
            self.raise_guarded(TRUE, e.exc)
            raise Dead()

    # ------------------------------------------------------------------ sources
    def isrepo(self, filename):
        r = self.isrepo_memo.get(filename)
        if r is None:
            f = os.path.realpath(filename)
            r = not filename.startswith('<') and f.startswith(self.repo + os.sep) or any(f.startswith(x) for x in self.extra_roots + (PYLIB,)) and not filename.startswith('<')
            self.isrepo_memo[filename] = r
        return r

    def load(self, filename):
        f = os.path.realpath(filename)
        if f not in self.src:
            with open(f, encoding='utf8') as fh:
                tree = ast.parse(fh.read())
            idx = {}
            for n in ast.walk(tree):
                if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    idx.setdefault((n.lineno, getattr(n, 'name', '<lambda>')), n)
                    for d in getattr(n, 'decorator_list', []):
                        idx.setdefault((d.lineno, n.name), n)
            self.src[f] = idx
        return self.src[f]

    def sfunc(self, f):
        """SFunc of a native function defined in the repository, else None"""
        k = id(f)
        r = self.fn_memo.get(k)
        if r is not None and r[0] is f:
            return r[1]
        res = None
        g = f
        while hasattr(g, '__wrapped__') and not isinstance(g, types.FunctionType):
            g = g.__wrapped__          # functools caches
        if isinstance(g, types.FunctionType) and self.isrepo(g.__code__.co_filename):
            c = g.__code__
            node = self.load(c.co_filename).get((c.co_firstlineno, c.co_name))
            if node is None:
                raise Unsupported('no source for %s' % f)
            env = None
            if g.__closure__:
                env = Env(None, g.__globals__)
                for name, cell in zip(c.co_freevars, g.__closure__):
                    try:
                        env.vars[name] = self.from_native(cell.cell_contents)
                    except ValueError:
                        pass
            res = SFunc(node, env, g.__globals__,
                        [self.from_native(d) for d in (g.__defaults__ or ())],
                        {k2: self.from_native(d) for k2, d in (g.__kwdefaults__ or {}).items()},
                        c.co_name, '%s.%s' % (g.__module__, g.__qualname__))
        self.fn_memo[k] = (f, res)
        return res

    # ------------------------------------------------------------------ native <-> engine
    def from_native(self, x, memo=None):
        if isinstance(x, PRIM) and not isinstance(x, np.generic):
            return x
        if isinstance(x, np.generic):
            return x.item()
        if isinstance(x, (LP, Q, SB, U, SList, SSet, SDict, SObj, NDArr, SRange, SIter, SFunc, SBound, SMethod)):
            return x
        if memo is None:
            memo = {}
            # persistent identity for native mutables reachable from globals / defaults
            if isinstance(x, (list, dict, set, np.ndarray)) or self.isrepo_class(type(x)):
                k = self.nat_ids.get(id(x))
                if k is not None and k[0] is x:
                    return k[1]
                r = self._from_native(x, memo)
                self.nat_ids[id(x)] = (x, r)
                return r
        return self._from_native(x, memo)

    def _from_native(self, x, memo):
        if id(x) in memo:
            return memo[id(x)][1]
        root = PC(None, TRUE) if self.pc is None else self._root()
        if isinstance(x, tuple):
            if type(x) is not tuple and not hasattr(x, '_fields'):
                raise Unsupported('tuple type %s' % type(x))
            return V.like((x,), [self.from_native(y, memo) for y in x])
        if isinstance(x, list):
            r = SList([], self.pc)
            memo[id(x)] = (x, r)
            r.slots = [(TRUE, self.from_native(y, memo)) for y in x]
            return r
        if isinstance(x, (set, frozenset)):
            r = SSet([(TRUE, self.from_native(y, memo)) for y in x], self.pc, isinstance(x, frozenset))
            return r
        if isinstance(x, dict):
            r = SDict(pc=self.pc)
            memo[id(x)] = (x, r)
            for k, v in x.items():
                r.set(self.from_native(k, memo), self.from_native(v, memo), TRUE)
            return r
        if isinstance(x, range):
            return SRange(x.start, x.stop, x.step)
        if isinstance(x, np.ndarray):
            if x.dtype == object:
                r = NDArr(x, 'object', self.pc)
            else:
                a = np.empty(x.shape, dtype=object)
                dt = {'f': 'float', 'i': 'int', 'u': 'int', 'b': 'bool', 'c': 'complex'}.get(x.dtype.kind)
                if dt is None:
                    raise Unsupported('array dtype %s' % x.dtype)
                if x.size:
                    a[...] = np.array(x.tolist(), dtype=object).reshape(x.shape)
                r = NDArr(a, dt, self.pc)
            memo[id(x)] = (x, r)
            return r
        sm = self.modelmod.sparse_from_native(self, x)
        if sm is not None:
            return sm
        t = type(x)
        if self.isrepo_class(t):
            r = SObj(t, self.pc)
            memo[id(x)] = (x, r)
            for k, v in fields(x).items():
                r.d[k] = self.from_native(v, memo)
            return r
        if isinstance(x, types.MethodType) and self.isrepo_class(type(x.__self__)):
            return SBound(x.__func__, self.from_native(x.__self__, memo))
        return x        # opaque native (function, module, class, ...)

    def _root(self):
        p = self.pc
        while p.parent is not None:
            p = p.parent
        return p

    def isrepo_class(self, t):
        if not isinstance(t, type):
            return False
        k = ('cls', id(t))
        r = self.isrepo_memo.get(k)
        if r is None:
            import sys
            m = sys.modules.get(t.__module__)
            f = getattr(m, '__file__', None) if m else None
            r = bool(f) and self.isrepo(f)
            self.isrepo_memo[k] = r
        return r

    def conc(self, x, depth=0):
        """deeply concrete?"""
        if isinstance(x, PRIM):
            return True
        if isinstance(x, (SB, U, LP, Q, SIter, SFunc, SBound, SMethod)):
            return False
        if depth > 40:
            return False
        if isinstance(x, tuple):
            return all(self.conc(y, depth + 1) for y in x)
        if isinstance(x, SList):
            return all(g == TRUE and self.conc(v, depth + 1) for g, v in x.slots)
        if isinstance(x, SSet):
            return all(g == TRUE and self.conc(v, depth + 1) for g, v in x.ins)
        if isinstance(x, SDict):
            return x.default is None and all(g == TRUE and self.conc(k, depth + 1) and self.conc(v, depth + 1)
                                             for k, g, v in x.entries)
        if isinstance(x, NDArr):
            return all(isinstance(v, PRIM) for v in x.a.reshape(-1)) if x.dt != 'object' or True else False
        if isinstance(x, SObj):
            return all(self.conc(v, depth + 1) for v in x.d.values())
        if isinstance(x, SRange):
            return x.native() is not None
        if isinstance(x, self.modelmod.SpMat):
            return x.isconc(self)
        if isinstance(x, slice):
            return all(self.conc(v) for v in (x.start, x.stop, x.step))
        if isinstance(x, self.modelmod.Opaque):
            return False
        return True

    def to_native(self, x, memo=None):
        if isinstance(x, PRIM):
            return x
        if memo is None:
            memo = {}
        if id(x) in memo:
            return memo[id(x)][1]
        if isinstance(x, tuple):
            return V.like((x,), [self.to_native(y, memo) for y in x])
        if isinstance(x, SList):
            if x.kind == 'tuple':
                return tuple(self.to_native(v, memo) for _, v in x.slots)
            r = []
            memo[id(x)] = (x, r)
            r.extend(self.to_native(v, memo) for _, v in x.slots)
            return r
        if isinstance(x, SSet):
            s = [self.to_native(v, memo) for _, v in x.ins]
            r = set()
            for v in s:
                r.add(v)
            if x.frozen:
                r = frozenset(r)
            memo[id(x)] = (x, r)
            return r
        if isinstance(x, SDict):
            r = {}
            memo[id(x)] = (x, r)
            for k, g, v in x.entries:
                r[self.to_native(k, memo)] = self.to_native(v, memo)
            return r
        if isinstance(x, NDArr):
            r = self.modelmod.nd_native(x)
            memo[id(x)] = (x, r)
            return r
        if isinstance(x, SObj):
            r = object.__new__(x.cls)
            memo[id(x)] = (x, r)
            for k, v in x.d.items():
                object.__setattr__(r, k, self.to_native(v, memo))
            return r
        if isinstance(x, SRange):
            return x.native()
        if isinstance(x, self.modelmod.SpMat):
            r = x.to_scipy(self)
            memo[id(x)] = (x, r)
            return r
        if isinstance(x, slice):
            return slice(*[self.to_native(v, memo) for v in (x.start, x.stop, x.step)])
        return x

    # ------------------------------------------------------------------ calls
    def call(self, f, args=(), kw=None):
        kw = kw or {}
        if isinstance(f, U):
            return self.map_alts(f, lambda x: self.call(x, args, kw))
        if id(f) in self.stubs:
            return self.stubs[id(f)][1](self, *args, **kw)
        if isinstance(f, SBound):
            return self.call(f.fn, (f.self,) + tuple(args), kw)
        if isinstance(f, SMethod):
            return self.modelmod.call_method(self, f.obj, f.name, args, kw)
        if isinstance(f, SFunc):
            return self.call_sfunc(f, args, kw)
        if isinstance(f, functools.partial):
            k2 = dict(f.keywords)
            k2.update(kw)
            return self.call(f.func, tuple(self.from_native(a) for a in f.args) + tuple(args), k2)
        if isinstance(f, self.modelmod.Opaque):
            return f.call(self, args, kw)
        if isinstance(f, SObj):
            m = self.getattr(f, '__call__')
            return self.call(m, args, kw)
        m = self.models.get(id(f))
        if m is not None:
            return m(self, args, kw)
        if isinstance(f, types.BuiltinMethodType) and isinstance(f.__self__, type):
            m = self.models.get((f.__self__, f.__name__))      # class methods are new objects at each access
            if m is not None:
                return m(self, args, kw)
        if isinstance(f, (types.FunctionType, functools._lru_cache_wrapper)):
            sf = self.sfunc(f)
            if sf is not None:
                sm = self.stubs.get('qual:' + sf.qual)
                if sm is not None:
                    return sm(self, *args, **kw)
                if not self.native_ok and isinstance(f, functools._lru_cache_wrapper):
                    return self.call_cached(f, sf, args, kw)
                return self.call_repo(f, sf, args, kw)
        if isinstance(f, types.MethodType):
            s = self.from_native(f.__self__)
            return self.call(f.__func__, (s,) + tuple(args), kw)
        m = self.models.get(id(f))
        if m is not None:
            return m(self, args, kw)
        if isinstance(f, type):
            if self.isrepo_class(f):
                return self.construct(f, args, kw)
            if issubclass(f, BaseException):
                return f(*[a if self.conc(a) and isinstance(a, PRIM) else repr(type(a)) for a in args])
        return self.modelmod.call_native(self, f, args, kw)

    def construct(self, cls, args, kw):
        if issubclass(cls, BaseException):
            return cls(*[a if isinstance(a, PRIM) else repr(type(a)) for a in args])
        new = cls.__new__
        if issubclass(cls, tuple) and hasattr(cls, '_fields'):
            return self.named(cls, args, kw)
        if new is not object.__new__:
            raise Unsupported('custom __new__ of %s' % cls)
        o = SObj(cls)
        init = None
        for c in cls.__mro__:
            if '__init__' in c.__dict__:
                init = c.__dict__['__init__']
                break
        if init is not None and init is not object.__init__:
            if isinstance(init, types.FunctionType) and self.sfunc(init) is not None:
                self.call_sfunc(self.sfunc(init), (o,) + tuple(args), kw)
            elif isinstance(init, types.FunctionType):
                # generated code (dataclass): bind by signature
                self.dataclass_init(cls, o, args, kw)
            else:
                raise Unsupported('__init__ of %s' % cls)
        elif args or kw:
            raise PyErr(TypeError('%s() takes no arguments' % cls.__name__))
        return o

    def named(self, cls, args, kw):
        names = cls._fields
        d = dict(zip(names, args))
        for n, v in kw.items():
            d[n] = v
        for n, v in cls._field_defaults.items():
            d.setdefault(n, self.from_native(v))
        if len(args) > len(names) or set(d) != set(names):
            raise PyErr(TypeError('%s() arguments' % cls.__name__))
        return cls._make([d[n] for n in names])

    def named_attr(self, o, name):
        t = type(o)
        if name in t._fields:
            return tuple.__getitem__(o, t._fields.index(name))
        if name == '_replace':
            return lambda ip, **kw: t._make([kw.get(n, x) for n, x in zip(t._fields, tuple(o))])
        for c in t.__mro__:
            d = c.__dict__.get(name)
            if isinstance(d, types.FunctionType) and self.sfunc(d) is not None:
                return SBound(d, o)
            if isinstance(d, property):
                return self.call(d.fget, (o,))
        return None

    def dataclass_init(self, cls, o, args, kw):
        import dataclasses
        if not dataclasses.is_dataclass(cls):
            raise Unsupported('generated __init__ of %s' % cls)
        flds = [f for f in dataclasses.fields(cls) if f.init]
        vals = dict(zip([f.name for f in flds], args))
        vals.update(kw)
        for f in dataclasses.fields(cls):
            if f.name in vals:
                o.d[f.name] = vals[f.name]
            elif f.default is not dataclasses.MISSING:
                o.d[f.name] = self.from_native(f.default)
            elif f.default_factory is not dataclasses.MISSING:
                o.d[f.name] = self.call(f.default_factory)
            else:
                raise PyErr(TypeError('missing argument %s' % f.name))
        if hasattr(cls, '__post_init__'):
            self.call(SBound(cls.__post_init__, o))

    def call_repo(self, f, sf, args, kw):
        """repository function: natively when everything is concrete, else interpreted"""
        if self.native_ok and sf.name not in self.native_never and not self.stubs:
            if all(self.conc(a) for a in args) and all(self.conc(a) for a in kw.values()):
                r = self.try_native(f, sf, args, kw) if self.frames else None
                if r is not None:
                    if r[0] == 'exc':
                        raise PyErr(r[1])
                    return r[1]
            elif not self.is_unit(f) and self.frames and not self.frames[-1].unit:
                # functions called directly by a property unit on symbolic values are interpreted
                r = self.try_split(f, sf, args, kw)
                if r is not None:
                    return r[0]
        return self.call_sfunc(sf, args, kw)

    def call_cached(self, f, sf, args, kw):
        """a functools cache hands out the same object again; results under a condition are not kept"""
        both = list(args) + list(kw.values())
        for i, a in enumerate(both):
            if isinstance(a, (U, SB)) and all(isinstance(x, PRIM) for _, x in alts(a)) and all(
                    isinstance(b, (U, SB)) or self.conc(b) for b in both):
                if i < len(args):
                    return self.map_alts(a, lambda x: self.call_cached(f, sf, tuple(args[:i]) + (x,) + tuple(args[i + 1:]), kw))
                n = list(kw)[i - len(args)]
                return self.map_alts(a, lambda x: self.call_cached(f, sf, args, dict(kw, **{n: x})))
        try:
            key = (id(f), tuple(args), tuple(sorted(kw.items())))
            hash(key)
            known = all(self.conc(b) for b in both)
        except TypeError:
            known = False
        if not known:
            return self.call_repo(f, sf, args, kw)
        if key not in self.cached:
            r = self.call_repo(f, sf, args, kw)
            if self.pc.full != TRUE:
                return r
            self.cached[key] = r
        return self.cached[key]

    def is_unit(self, f):
        fn = getattr(getattr(f, '__code__', None), 'co_filename', '')
        return any(fn.startswith(r) for r in self.extra_roots)

    def try_split(self, f, sf, args, kw):
        """top-level primitive unions with few alternatives and otherwise concrete arguments:
        run each alternative natively and merge (exact)"""
        n = 1
        for a in list(args) + list(kw.values()):
            if isinstance(a, (U, SB)):
                aa = alts(a)
                if not all(isinstance(x, PRIM) or (isinstance(x, tuple) and self.conc(x)) for _, x in aa):
                    return None
                n *= len(aa)
                if n > 64:
                    return None
            elif not self.conc(a):
                return None
        names = list(kw)
        allv = list(args) + [kw[k] for k in names]

        def rec(i, acc):
            if i == len(allv):
                r = self.try_native(f, sf, acc[:len(args)], dict(zip(names, acc[len(args):])))
                if r is None:
                    return self.call_sfunc(sf, acc[:len(args)], dict(zip(names, acc[len(args):])))
                if r[0] == 'exc':
                    raise PyErr(r[1])
                return r[1]
            if isinstance(allv[i], (U, SB)):
                return self.map_alts(allv[i], lambda x: rec(i + 1, acc + [x]))
            return rec(i + 1, acc + [allv[i]])
        return (rec(0, []),)

    def try_native(self, f, sf, args, kw):
        try:
            memo = {}
            na = [self.to_native(a, memo) for a in args]
            nk = {k: self.to_native(a, memo) for k, a in kw.items()}
            before = pickle.dumps((na, nk), protocol=4)
        except Unsupported:
            raise
        except Exception:
            return None
        key = (id(f), before)
        hit = self.native_memo.get(key)
        if hit is None:
            np_state = np.random.get_state() if False else None
            try:
                na, nk = pickle.loads(before)
                canon = pickle.dumps((na, nk), protocol=4)
                with no_io():
                    res = f(*na, **nk)
                after = pickle.dumps((na, nk), protocol=4)
                if after != canon:
                    hit = ('no',)
                elif inspect.isgenerator(res) or self.aliases(res, na, nk):
                    hit = ('no',)
                else:
                    try:
                        hit = ('val', pickle.dumps(res, protocol=4))
                    except Exception:
                        hit = ('no',)
            except (RecursionError, IOUsed):
                hit = ('no',)
            except Exception as e:
                hit = ('exc', e)
            self.native_memo[key] = hit
            self.nativerun[sf.qual] = self.nativerun.get(sf.qual, 0) + 1
        if hit[0] == 'no':
            return None
        if hit[0] == 'exc':
            return hit
        res = pickle.loads(hit[1])
        try:
            return ('val', self.from_native(res, {}))
        except Unsupported:
            return None

    def aliases(self, res, na, nk):
        ids = set()

        def walk(x, seen, d=0):
            if isinstance(x, PRIM) or x is None or d > 30:
                return
            if isinstance(x, (types.FunctionType, type, types.ModuleType)):
                return
            if id(x) in seen:
                return
            if not isinstance(x, (tuple, str)):
                seen.add(id(x))
            if isinstance(x, (list, tuple, set, frozenset)):
                for y in x:
                    walk(y, seen, d + 1)
            elif isinstance(x, dict):
                for y in x.values():
                    walk(y, seen, d + 1)
            elif isinstance(x, np.ndarray):
                b = x
                while b.base is not None and isinstance(b.base, np.ndarray):
                    b = b.base
                    seen.add(id(b))
            elif hasattr(x, '__dict__'):
                for y in x.__dict__.values():
                    walk(y, seen, d + 1)
        walk(na, ids)
        walk(nk, ids)
        rid = set()
        walk(res, rid)
        return bool(ids & rid)

    def bind(self, fn, args, kw):
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        n = len(names)
        args = list(args)
        if len(args) > n and not a.vararg:
            raise PyErr(TypeError('%s() takes %d positional arguments but %d were given' % (fn.name, n, len(args))))
        for name, v in zip(names, args):
            out[name] = v
        if a.vararg:
            out[a.vararg.arg] = tuple(args[n:])
        extra = {}
        kwonly = [x.arg for x in a.kwonlyargs]
        pos_only = {x.arg for x in a.posonlyargs}
        for k, v in kw.items():
            if (k in names and k not in pos_only) or k in kwonly:
                if k in out:
                    raise PyErr(TypeError("%s() got multiple values for argument '%s'" % (fn.name, k)))
                out[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                raise PyErr(TypeError("%s() got an unexpected keyword argument '%s'" % (fn.name, k)))
        d = fn.defaults
        for name, v in zip(names[n - len(d):], d):
            if name not in out:
                out[name] = v
        for k in kwonly:
            if k not in out:
                if k in fn.kwdefaults:
                    out[k] = fn.kwdefaults[k]
                else:
                    raise PyErr(TypeError('%s() missing argument %s' % (fn.name, k)))
        for name in names:
            if name not in out:
                raise PyErr(TypeError("%s() missing required argument '%s'" % (fn.name, name)))
        if a.kwarg:
            dd = SDict()
            for k, v in extra.items():
                dd.set(k, v, TRUE)
            out[a.kwarg.arg] = dd
        return out

    def call_sfunc(self, fn, args, kw):
        binds = self.bind(fn, args, kw)
        if len(self.frames) > 180:
            raise Unsupported('recursion too deep in %s' % fn.name)
        env = Env(fn.env, fn.globs)
        env.vars = binds
        entry = self.pc
        fr = Frame(env, fn.name, entry)
        fn_file = (fn.globs or {}).get('__file__', '') if isinstance(fn.globs, dict) else ''
        fr.unit = any(fn_file.startswith(r) for r in self.extra_roots)
        self.frames.append(fr)
        self.encoded[fn.qual] = self.encoded.get(fn.qual, 0) + 1
        try:
            node = fn.node
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, fr)
            if fn.isgen is None:
                fn.isgen = has_yield(node)
            if fn.isgen:
                fr.yields = []
            self.exec_block(node.body, fr)
        finally:
            self.frames.pop()
        states = list(fr.rets)
        if self.pc.full != FALSE:
            states.append((self.pc, None))
        if not states:
            self.pc = PC(entry, FALSE)
            raise Dead()
        if fr.yields is not None:
            self.pc, _ = self.join(entry, [(p, None) for p, _ in states])
            return SIter([(rel(p, entry), v) for p, v in fr.yields], entry)
        if len(states) == 1:
            p, v = states[0]
            r = rel(p, entry)
            self.pc = entry if r == TRUE else PC(entry, r)
            return v
        rels = [rel(p, entry) for p, _ in states]
        tot = self.aig.ORS(rels)
        v = states[-1][1]
        simple = all(isinstance(s[1], (U, SB, PRIM)) for s in states)
        if simple:
            v = mku([(r, s[1]) for r, s in zip(rels, states)])
        else:
            for r, (p, w) in zip(reversed(rels[:-1]), reversed(states[:-1])):
                v = ite(r, w, v)
        self.pc = entry if tot == TRUE else PC(entry, tot)
        return v

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts, fr):
        for s in stmts:
            if self.pc.full == FALSE:
                return
            fr.line = s.lineno
            self.nstmts += 1
            try:
                self.exec(s, fr)
            except Dead:
                if self.pc.full != FALSE:
                    self.pc = PC(self.pc, FALSE)
                return
            except PyErr as e:
                try:
                    self.raise_guarded(TRUE, e.exc)
                except Dead:
                    pass
                if self.pc.full != FALSE:
                    # the raise was infeasible
                    self.pc = PC(self.pc, FALSE)
                return

    def exec(self, s, fr):
        return getattr(self, 's_' + s.__class__.__name__)(s, fr)

    def s_Expr(self, s, fr):
        self.eval(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Import(self, s, fr):
        import importlib
        for a in s.names:
            m = importlib.import_module(a.name)
            if a.asname:
                fr.env.vars[a.asname] = m
            else:
                fr.env.vars[a.name.split('.')[0]] = importlib.import_module(a.name.split('.')[0])

    def s_ImportFrom(self, s, fr):
        import importlib
        m = importlib.import_module(s.module)
        for a in s.names:
            fr.env.vars[a.asname or a.name] = self.from_native(getattr(m, a.name))

    def s_Global(self, s, fr):
        fr.env.gnames = tuple(fr.env.gnames) + tuple(s.names)

    def s_Nonlocal(self, s, fr):
        fr.env.nnames = tuple(fr.env.nnames) + tuple(s.names)

    def s_FunctionDef(self, s, fr):
        a = s.args
        f = SFunc(s, fr.env, fr.env.globs, [self.eval(d, fr) for d in a.defaults],
                  {k.arg: self.eval(d, fr) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None},
                  s.name, fr.name + '.' + s.name)
        v = f
        for d in reversed(s.decorator_list):
            dec = self.eval(d, fr)
            v = self.modelmod.decorate(self, dec, v)
        self.assign_name(s.name, v, fr)

    def s_Return(self, s, fr):
        v = self.eval(s.value, fr) if s.value is not None else None
        fr.rets.append((self.pc, v))
        self.pc = PC(self.pc, FALSE)

    def s_If(self, s, fr):
        c = truth(self.eval(s.test, fr))
        self.branch(c, s.body, s.orelse, fr)

    def branch(self, c, body, orelse, fr):
        if c == TRUE:
            return self.exec_block(body, fr)
        if c == FALSE:
            return self.exec_block(orelse, fr)
        base = self.pc
        t, e = PC(base, c), PC(base, c ^ 1)
        if t.full == FALSE or self.infeasible(t.full):
            return self.exec_block(orelse, fr)
        if e.full == FALSE or self.infeasible(e.full):
            return self.exec_block(body, fr)
        self.nbranch += 1
        env = fr.env
        v0 = env.vars
        env.vars = dict(v0)
        self.pc = t
        self.exec_block(body, fr)
        st1 = (self.pc, env.vars)
        env.vars = dict(v0)
        self.pc = e
        self.exec_block(orelse, fr)
        st2 = (self.pc, env.vars)
        self.settle(base, [st1, st2], fr)

    def settle(self, base, states, fr):
        p, v = self.join(base, states)
        self.pc = p
        if v is not None:
            fr.env.vars = v

    def s_While(self, s, fr):
        env = fr.env
        lp = Loop()
        base0 = self.pc
        exits = []
        it = 0
        while True:
            if self.pc.full == FALSE:
                break
            c = truth(self.eval(s.test, fr))
            base = self.pc
            if c != TRUE:
                t, e = PC(base, c), PC(base, c ^ 1)
                if c == FALSE or t.full == FALSE or self.infeasible(t.full):
                    exits.append((self.pc, env.vars))
                    self.pc = PC(base, FALSE)
                    break
                if not (e.full == FALSE or self.infeasible(e.full)):
                    exits.append((e, dict(env.vars)))
                    self.pc = t
            it += 1
            if it > self.maxiter:
                # the real code decides whether this loop really goes on for ever
                try:
                    self.raise_guarded(TRUE, TimeoutError('loop still running after %d turns in %s' % (self.maxiter, fr.name)))
                except Dead:
                    pass
                self.pc = PC(base, FALSE)
                break
            b = self.pc
            fr.loops.append(lp)
            lp.conts = []
            self.exec_block(s.body, fr)
            fr.loops.pop()
            self.settle(b, [(self.pc, env.vars)] + lp.conts, fr)
        # else clause on normal exit
        if s.orelse and exits:
            self.settle(base0, exits, fr)
            self.exec_block(s.orelse, fr)
            exits = [(self.pc, env.vars)]
        self.settle(base0, exits + lp.breaks, fr)

    def s_For(self, s, fr):
        itv = self.eval(s.iter, fr)
        if isinstance(itv, U):
            return self.for_union(s, itv, fr)
        self.for_over(s, itv, fr)

    def for_union(self, s, itv, fr):
        fa = feasible_alts(itv)
        if len(fa) == 1:
            return self.for_over(s, fa[0][1], fr)
        base = self.pc
        env = fr.env
        v0 = env.vars
        states = []
        for g, x in fa:
            self.pc = PC(base, g)
            env.vars = dict(v0)
            try:
                self.for_over(s, x, fr)
            except Dead:
                continue
            states.append((self.pc, env.vars))
        self.settle(base, states, fr)

    def for_over(self, s, itv, fr):
        env = fr.env
        lp = Loop()
        base0 = self.pc
        live = isinstance(itv, SList) and itv.kind == 'list'
        slots = self.iter_slots(itv)
        i = 0
        n0 = len(slots)
        while True:
            if live and itv.slots is not slots:
                # list mutated while iterating: follow it when it only grew / stayed definite
                slots = itv.slots
            if i >= len(slots):
                break
            g, v = slots[i][0], slots[i][1]
            i += 1
            if i > self.maxiter * 120:
                self.raise_guarded(TRUE, TimeoutError('loop still running after %d turns in %s' % (i, fr.name)))
            base = self.pc
            if base.full == FALSE:
                break
            if isinstance(itv, SIter):
                slots[i - 1][0] = self.aig.AND(g, rel(self.pc, itv.pc) ^ 1) if False else g
            skip = None
            if g != TRUE:
                t = PC(base, g)
                if t.full == FALSE or self.infeasible(t.full):
                    continue
                e = PC(base, g ^ 1)
                if not (e.full == FALSE or self.infeasible(e.full)):
                    skip = (e, env.vars)
                    env.vars = dict(env.vars)
                    self.pc = t
            b = self.pc
            fr.loops.append(lp)
            lp.conts = []
            try:
                self.assign(s.target, v, fr)
                self.exec_block(s.body, fr)
            except Dead:
                self.pc = PC(self.pc, FALSE)
            fr.loops.pop()
            states = [(self.pc, env.vars)] + lp.conts
            if skip is not None:
                states.append(skip)
            self.settle(base, states, fr)
        if isinstance(itv, SIter):
            # exhausted on every path that finished
            itv.slots = [] if not lp.breaks else itv.slots
        if s.orelse and self.pc.full != FALSE:
            self.exec_block(s.orelse, fr)
        if lp.breaks:
            self.settle(base0, [(self.pc, env.vars)] + lp.breaks, fr)

    def s_Break(self, s, fr):
        fr.loops[-1].breaks.append((self.pc, dict(fr.env.vars)))
        self.pc = PC(self.pc, FALSE)

    def s_Continue(self, s, fr):
        fr.loops[-1].conts.append((self.pc, dict(fr.env.vars)))
        self.pc = PC(self.pc, FALSE)

    def s_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        op = BINOPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, fr)
            v = self.eval(s.value, fr)
            self.assign_name(t.id, self.augop(op, old, v), fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            old = self.getattr(o, t.attr)
            v = self.eval(s.value, fr)
            self.setattr(o, t.attr, self.augop(op, old, v))
        else:
            o = self.eval(t.value, fr)
            i = self.eval_index(t.slice, fr)
            old = self.getitem(o, i)
            v = self.eval(s.value, fr)
            self.setitem(o, i, self.augop(op, old, v))

    def augop(self, op, old, v):
        if isinstance(old, U) and any(isinstance(x, (SList, SSet, NDArr, SDict)) for _, x in old.alts):
            return self.map_alts(old, lambda x: self.augop(op, x, v))
        if isinstance(old, SList) and old.kind == 'list' and op == '+':
            self.modelmod.call_method(self, old, 'extend', (v,), {})
            return old
        if isinstance(old, SSet) and not old.frozen and op in '|&-^':
            name = {'|': 'update', '&': 'intersection_update', '-': 'difference_update',
                    '^': 'symmetric_difference_update'}[op]
            self.modelmod.call_method(self, old, name, (v,), {})
            return old
        if isinstance(old, NDArr):
            r = self.binop(op, old, v)
            g = rel(self.pc, old.pc)
            ra = r.a if isinstance(r, NDArr) else np.asarray(r, dtype=object)
            if ra.shape != old.a.shape:
                raise PyErr(ValueError('non-broadcastable output operand'))
            if old.dt == 'int' and isinstance(r, NDArr) and r.dt == 'float':
                raise PyErr(TypeError('Cannot cast ufunc output from float64 to int64'))
            fl, rf = old.a, ra
            for ix in np.ndindex(*old.a.shape):
                fl[ix] = ite(g, rf[ix], fl[ix])
            return old
        return self.binop(op, old, v)

    def s_Assert(self, s, fr):
        c = truth(self.eval(s.test, fr))
        if c != TRUE:
            self.raise_guarded(c ^ 1, AssertionError('assert'))

    def s_Raise(self, s, fr):
        if s.exc is None:
            raise Unsupported('bare raise')
        e = self.eval(s.exc, fr)
        if isinstance(e, type) and issubclass(e, BaseException):
            e = e()
        if not isinstance(e, BaseException):
            if isinstance(e, SObj):
                raise Unsupported('raise of a symbolic exception object')
            raise PyErr(TypeError('exceptions must derive from BaseException'))
        self.raise_guarded(TRUE, e)
        raise Dead()

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, fr)
                i = self.eval_index(t.slice, fr)
                self.modelmod.delitem(self, o, i)
            else:
                raise Unsupported('del attribute')

    def s_With(self, s, fr):
        ctxs = []
        for item in s.items:
            c = self.eval(item.context_expr, fr)
            v = self.modelmod.ctx_enter(self, c)
            ctxs.append(c)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, fr)
        self.exec_block(s.body, fr)
        if self.pc.full != FALSE:
            for c in reversed(ctxs):
                self.modelmod.ctx_exit(self, c)

    def s_Try(self, s, fr):
        env = fr.env
        base = self.pc
        mark = len(self.raises)
        self.tries.append((s, env))
        self.exec_block(s.body, fr)
        self.tries.pop()
        pend = self.raises[mark:]
        del self.raises[mark:]
        if self.pc.full != FALSE and s.orelse:
            self.exec_block(s.orelse, fr)
        states = [(self.pc, env.vars)]
        for h in s.handlers:
            mine, rest = [], []
            if h.type is None:
                types_ = (BaseException,)
            else:
                self.pc = base
                t = self.eval(h.type, fr)
                types_ = t if isinstance(t, tuple) else (t,)
            for r in pend:
                (mine if isinstance(r.exc, types_) else rest).append(r)
            pend = rest
            if not mine:
                continue
            self.pc, v = self.join(base, [(r.pc, r.snaps.get(id(s), dict(env.vars))) for r in mine])
            env.vars = dict(v)
            if h.name:
                env.vars[h.name] = mku([(rel(r.pc, base), r.exc) for r in mine])
            self.exec_block(h.body, fr)
            states.append((self.pc, env.vars))
        self.raises.extend(pend)
        self.settle(base, states, fr)
        if s.finalbody:
            if self.pc.full != FALSE:
                self.exec_block(s.finalbody, fr)

    def s_Match(self, s, fr):
        st_ = self.match_memo.get(id(s))
        if st_ is None:
            st_ = self.match_memo[id(s)] = (s, desugar_match(s))
        self.exec_block(st_[1], fr)

    def s_ClassDef(self, s, fr):
        raise Unsupported('class statement inside a function')

    # ------------------------------------------------------------------ assignment
    def assign_name(self, name, v, fr):
        env = fr.env
        if name in env.gnames:
            k = (id(env.globs), name)
            old = self.lookup_global(name, env)
            self.gover[k] = ite(self.pc.full, v, old) if self.pc.full != TRUE else v
            return
        if name in env.nnames:
            e = env.parent
            while e is not None and name not in e.vars:
                e = e.parent
            if e is None:
                raise Unsupported('nonlocal %s' % name)
            e.vars[name] = ite(self.pc.full, v, e.vars[name])
            return
        env.vars[name] = v

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            vals = self.unpack(v, len(t.elts), star[0] if star else None)
            for x, y in zip(t.elts, vals):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            self.setitem(o, self.eval_index(t.slice, fr), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, n, star):
        if isinstance(v, U):
            if all(isinstance(x, (SList, tuple, SIter)) for _, x in v.alts):
                parts = [(g, self.unpack(x, n, star)) for g, x in feasible_alts(v)]
                return [mku([(g, p[i]) for g, p in parts]) for i in range(n)]
        if isinstance(v, tuple):
            xs = list(v)
        else:
            slots = self.iter_slots(v)
            if not all(g == TRUE for g, _ in slots):
                tmp = SList([tuple(x) for x in slots])
                tmp.segs = v.segs if isinstance(v, SList) else None
                xs = tmp.definite()
                if xs is None:
                    return self.unpack_by_length(tmp, n, star)
            else:
                xs = [x for _, x in slots]
        if star is None:
            if len(xs) != n:
                raise PyErr(ValueError('unpack: expected %d values, got %d' % (n, len(xs))))
            return xs
        k = len(xs) - n + 1
        if k < 0:
            raise PyErr(ValueError('not enough values to unpack'))
        return xs[:star] + [SList([(TRUE, x) for x in xs[star:star + k]])] + xs[star + k:]

    def unpack_by_length(self, l, n, star):
        from .mseq import compact
        c = compact(l)
        parts = []
        for g, k in feasible_alts(count_u([g for g, _ in l.slots])):
            if k < n - 1 if star is not None else k != n:
                self.raise_guarded(g, ValueError('unpack: wrong number of values'))
                continue
            xs = [x for _, x in c[:k]]
            if star is not None:
                m = k - n + 1
                xs = xs[:star] + [SList([(TRUE, x) for x in xs[star:star + m]])] + xs[star + m:]
            parts.append((g, xs))
        if not parts:
            raise Dead()
        return [mku([(g, p[i]) for g, p in parts]) for i in range(n)]

    # ------------------------------------------------------------------ names
    def lookup(self, name, fr):
        e = fr.env
        while e is not None:
            if name in e.vars:
                v = e.vars[name]
                if v is UNBOUND:
                    raise PyErr(UnboundLocalError(name))
                if isinstance(v, U):
                    for g, x in v.alts:
                        if x is UNBOUND:
                            return self.strip_unbound(v, name)
                return v
            e = e.parent
        return self.lookup_global(name, fr.env)

    def strip_unbound(self, v, name):
        for g, x in v.alts:
            if x is UNBOUND:
                self.raise_guarded(g, UnboundLocalError(name))
        return mku([(g, x) for g, x in v.alts if x is not UNBOUND])

    def lookup_global(self, name, env):
        k = (id(env.globs), name)
        if k in self.gover:
            return self.gover[k]
        if name in env.globs:
            return self.from_native(env.globs[name])
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise PyErr(NameError("name '%s' is not defined" % name))

    # ------------------------------------------------------------------ expressions
    def eval(self, e, fr):
        return getattr(self, 'e_' + e.__class__.__name__)(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.lookup(e.id, fr)

    def e_Tuple(self, e, fr):
        out = []
        unk = False
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out.append(('*', self.eval(x.value, fr)))
                unk = True
            else:
                out.append(('', self.eval(x, fr)))
        if not unk:
            return tuple(v for _, v in out)
        slots = []
        for k, v in out:
            if k:
                slots.extend(tuple(s) for s in self.iter_slots(v))
            else:
                slots.append((TRUE, v))
        if all(g == TRUE for g, _ in slots):
            return tuple(v for _, v in slots)
        return SList(slots, kind='tuple')

    def e_List(self, e, fr):
        slots = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                slots.extend(tuple(s) for s in self.iter_slots(self.eval(x.value, fr)))
            else:
                slots.append((TRUE, self.eval(x, fr)))
        return SList(slots)

    def e_Set(self, e, fr):
        s = SSet()
        for x in e.elts:
            if isinstance(x, ast.Starred):
                for g, v in self.iter_slots(self.eval(x.value, fr)):
                    s.add(v, g)
            else:
                s.add(self.hashable(self.eval(x, fr)))
        return s

    def hashable(self, v):
        if isinstance(v, (SDict, SSet)) and not getattr(v, 'frozen', False) or isinstance(v, SList) and v.kind == 'list':
            raise PyErr(TypeError('unhashable type'))
        return v

    def e_Dict(self, e, fr):
        d = SDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.eval(v, fr)
                for kk, g, vv in o.entries:
                    d.set(kk, vv, g)
            else:
                kk = self.hashable(self.eval(k, fr))
                d.set(kk, self.eval(v, fr), TRUE)
        return d

    def e_JoinedStr(self, e, fr):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                v = self.eval(x.value, fr)
                spec = self.eval(x.format_spec, fr) if x.format_spec else ''
                t = self.modelmod.fmt(self, v, x.conversion, spec)
                if isinstance(t, self.modelmod.Text):
                    return t
                parts.append(t)
        r = ''
        for p in parts:
            r = self.binop('+', r, p)
        return r

    def e_FormattedValue(self, e, fr):
        return self.modelmod.fmt(self, self.eval(e.value, fr), e.conversion, self.eval(e.format_spec, fr) if e.format_spec else '')

    def e_BinOp(self, e, fr):
        return self.binop(BINOPS[type(e.op)], self.eval(e.left, fr), self.eval(e.right, fr))

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return mkb(truth(v) ^ 1)
        if isinstance(v, PRIM):
            try:
                return -v if isinstance(e.op, ast.USub) else +v if isinstance(e.op, ast.UAdd) else ~v
            except TypeError as ex:
                raise PyErr(ex)
        if isinstance(e.op, ast.USub):
            if isinstance(v, NDArr):
                return NDArr(np.negative(v.a) if v.a.size else v.a, v.dt)
            if isinstance(v, (LP, Q)):
                return -v
            return self.binop('*', -1, v)
        if isinstance(e.op, ast.UAdd):
            return v
        return mku([(g, ~x) for g, x in alts(v)])

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        base = self.pc
        v = self.eval(e.values[0], fr)
        return self._boolop(isand, v, e.values[1:], fr)

    def _boolop(self, isand, v, rest, fr):
        if not rest:
            return v
        c = truth(v)
        go = c if isand else c ^ 1          # evaluate the rest under go
        if go == FALSE:
            return v
        if go == TRUE:
            return self._boolop(isand, self.eval(rest[0], fr), rest[1:], fr)
        base = self.pc
        t = PC(base, go)
        if t.full == FALSE or self.infeasible(t.full):
            return v
        n = PC(base, go ^ 1)
        self.pc = t
        try:
            w = self.guarded(lambda: self._boolop(isand, self.eval(rest[0], fr), rest[1:], fr))
            s1 = [(self.pc, None)]
        except Dead:
            w, s1 = None, []
        self.pc, _ = self.join(base, s1 + [(n, None)])
        if not s1:
            return v
        if isbool_like(v) and isbool_like(w):
            return mkb(self.aig.MUX(go, truth(w), c))
        return ite(go, w, v)

    def e_IfExp(self, e, fr):
        c = truth(self.eval(e.test, fr))
        return self.cond(c, lambda: self.eval(e.body, fr), lambda: self.eval(e.orelse, fr))

    def cond(self, c, f1, f2):
        if c == TRUE:
            return f1()
        if c == FALSE:
            return f2()
        base = self.pc
        t, n = PC(base, c), PC(base, c ^ 1)
        if t.full == FALSE or self.infeasible(t.full):
            return f2()
        if n.full == FALSE or self.infeasible(n.full):
            return f1()
        outs, states = [], []
        for p, f, g in ((t, f1, c), (n, f2, c ^ 1)):
            self.pc = p
            try:
                outs.append((g, self.guarded(f)))
                states.append((self.pc, None))
            except Dead:
                pass
        self.pc, _ = self.join(base, states)
        if not outs:
            raise Dead()
        if len(outs) == 1:
            return outs[0][1]
        return ite(c, outs[0][1], outs[1][1])

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        r = None
        base = self.pc
        for op, c in zip(e.ops, e.comparators):
            right = self.eval(c, fr)
            x = self.compare(op, left, right)
            if r is None:
                r = x
            else:
                r = mkb(self.aig.AND(truth(r), truth(x)))
            if r is False:
                return False
            left = right
        return r

    def compare(self, op, a, b):
        t = type(op)
        if isinstance(a, NDArr) or isinstance(b, NDArr):
            if t in (ast.Eq, ast.NotEq, ast.Lt, ast.LtE, ast.Gt, ast.GtE):
                return self.modelmod.nd_compare(self, t, a, b)
        if t in (ast.Is, ast.IsNot):
            r = self.is_(a, b)
            return mkb(r ^ (t is ast.IsNot))
        if t in (ast.In, ast.NotIn):
            r = self.contains(b, a)
            return mkb(r ^ (t is ast.NotIn))
        if isinstance(a, PRIM) and isinstance(b, PRIM):
            try:
                if t is ast.Eq:
                    return a == b
                if t is ast.NotEq:
                    return a != b
                return {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b,
                        ast.GtE: lambda: a >= b}[t]()
            except TypeError as ex:
                raise PyErr(ex)
        if t is ast.Eq:
            return mkb(self.eq_obj(a, b))
        if t is ast.NotEq:
            return mkb(self.eq_obj(a, b) ^ 1)
        sym = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}[t]
        if isinstance(a, SObj) or isinstance(b, SObj):
            m, w = {'<': ('__lt__', '__gt__'), '<=': ('__le__', '__ge__'), '>': ('__gt__', '__lt__'), '>=': ('__ge__', '__le__')}[sym]
            if isinstance(a, SObj) and a.cls_has(m):
                return self.call(self.getattr(a, m), (b,))
            if isinstance(b, SObj) and b.cls_has(w):
                return self.call(self.getattr(b, w), (a,))
        return mkb(cmp_lit(sym, a, b))

    def eq_obj(self, a, b):
        if isinstance(a, SObj) and a.cls_has('__eq__'):
            return truth(self.call(self.getattr(a, '__eq__'), (b,)))
        return eq(a, b)

    def is_(self, a, b):
        if isinstance(a, (U, SB)) or isinstance(b, (U, SB)):
            r = FALSE
            for g, x in alts(a):
                for h, y in alts(b):
                    r = self.aig.OR(r, self.aig.AND(self.aig.AND(g, h), self.is_(x, y)))
            return r
        if isinstance(a, PRIM) and isinstance(b, PRIM):
            if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
                return TRUE if a is b else FALSE
            return TRUE if type(a) is type(b) and a == b else FALSE
        return TRUE if a is b else FALSE

    def contains(self, c, x):
        A = self.aig
        if isinstance(c, U):
            return A.ORS(A.AND(g, self.contains(y, x)) for g, y in feasible_alts(c))
        if isinstance(c, SSet):
            return c.contains(self.hashable(x))
        if isinstance(c, SDict):
            return c.contains(self.hashable(x)) if not isinstance(x, U) else \
                A.ORS(A.AND(g, c.contains(y)) for g, y in x.alts)
        if isinstance(c, str):
            return A.ORS(A.AND(g, TRUE if y in c else FALSE) for g, y in alts(x))
        if isinstance(c, SRange):
            return A.ORS(A.AND(g, eq(v, x)) for g, v in c.slots())
        if isinstance(c, (SList, tuple, SIter)) or isinstance(c, NDArr) or isinstance(c, self.modelmod.View):
            return A.ORS(A.AND(g, self.eq_obj(v, x)) for g, v in self.iter_slots(c))
        if isinstance(c, SObj):
            return truth(self.call(self.getattr(c, '__contains__'), (x,)))
        if self.conc(x):
            try:
                return TRUE if self.to_native(x) in c else FALSE
            except TypeError as ex:
                raise PyErr(ex)
        raise Unsupported('membership in %s' % type(c))

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_Lambda(self, e, fr):
        a = e.args
        return SFunc(e, fr.env, fr.env.globs, [self.eval(d, fr) for d in a.defaults],
                     {k.arg: self.eval(d, fr) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None},
                     '<lambda>', fr.name + '.<lambda>')

    def e_Starred(self, e, fr):
        raise Unsupported('starred expression')

    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), e.attr)

    def e_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        i = self.eval_index(e.slice, fr)
        return self.getitem(o, i)

    def eval_index(self, s, fr):
        if isinstance(s, ast.Slice):
            return slice(*[self.eval(x, fr) if x is not None else None for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_index(x, fr) for x in s.elts)
        return self.eval(s, fr)

    def e_Call(self, e, fr):
        f = self.eval(e.func, fr)
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, fr)
                if isinstance(v, SList):
                    d = v.definite()
                    if d is None:
                        raise Unsupported('star-argument of symbolic length')
                    args.extend(d)
                else:
                    sl = self.iter_slots(v)
                    if not all(g == TRUE for g, _ in sl):
                        raise Unsupported('star-argument of symbolic length')
                    args.extend(y for _, y in sl)
            else:
                args.append(self.eval(x, fr))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, fr)
                for kk, g, vv in d.entries:
                    if g != TRUE or not isinstance(kk, str):
                        raise Unsupported('symbolic ** argument')
                    kw[kk] = vv
            else:
                kw[k.arg] = self.eval(k.value, fr)
        if len(self.frames) and fr is not self.frames[-1]:
            pass
        return self.call(f, tuple(args), kw)

    # comprehensions -------------------------------------------------------------
    def comp(self, gens, fr, emit):
        env = Env(fr.env, fr.env.globs)
        f2 = Frame(env, fr.name, self.pc)
        f2.yields = fr.yields
        f2.line = fr.line

        def rec(i):
            if i == len(gens):
                emit(f2)
                return
            gen = gens[i]
            itv = self.eval(gen.iter, f2 if i else f2)
            for src_g, src in (feasible_alts(itv) if isinstance(itv, U) else [(TRUE, itv)]):
                slots = self.iter_slots(src)
                for slot in slots:
                    g, v = slot[0], slot[1]
                    if src_g != TRUE:
                        g = self.aig.AND(g, src_g)
                    if g == FALSE:
                        continue
                    base = self.pc
                    if base.full == FALSE:
                        raise Dead()
                    if g == TRUE:
                        self.assign(gen.target, v, f2)
                        self.filters(gen.ifs, 0, f2, lambda: rec(i + 1))
                        continue
                    t, n = PC(base, g), PC(base, g ^ 1)
                    if t.full == FALSE or self.infeasible(t.full):
                        continue
                    self.pc = t
                    try:
                        def body():
                            self.assign(gen.target, v, f2)
                            self.filters(gen.ifs, 0, f2, lambda: rec(i + 1))
                        self.guarded(body)
                        s = [(self.pc, None)]
                    except Dead:
                        s = []
                    self.pc, _ = self.join(base, s + [(n, None)])
                    if self.pc.full == FALSE:
                        raise Dead()
        rec(0)

    def filters(self, ifs, j, f2, k):
        if j == len(ifs):
            return k()
        c = truth(self.eval(ifs[j], f2))
        if c == TRUE:
            return self.filters(ifs, j + 1, f2, k)
        if c == FALSE:
            return
        base = self.pc
        t, n = PC(base, c), PC(base, c ^ 1)
        if t.full == FALSE or self.infeasible(t.full):
            return
        self.pc = t
        try:
            self.guarded(lambda: self.filters(ifs, j + 1, f2, k))
            s = [(self.pc, None)]
        except Dead:
            s = []
        self.pc, _ = self.join(base, s + [(n, None)])
        if self.pc.full == FALSE:
            raise Dead()

    def e_ListComp(self, e, fr):
        out = []
        start = self.pc

        def emit(f2):
            v = self.eval(e.elt, f2)
            out.append((rel(self.pc, start), v))
        self.comp(e.generators, fr, emit)
        r = SList([(g, v) for g, v in out if g != FALSE], start)
        return r

    def e_GeneratorExp(self, e, fr):
        l = self.e_ListComp(e, fr)
        return SIter(l.slots, l.pc)

    def e_SetComp(self, e, fr):
        s = SSet()
        start = self.pc

        def emit(f2):
            v = self.hashable(self.eval(e.elt, f2))
            s.add(v, rel(self.pc, start))
        self.comp(e.generators, fr, emit)
        return s

    def e_DictComp(self, e, fr):
        d = SDict()
        start = self.pc

        def emit(f2):
            k = self.hashable(self.eval(e.key, f2))
            v = self.eval(e.value, f2)
            d.set(k, v, rel(self.pc, start))
        self.comp(e.generators, fr, emit)
        return d

    def e_Yield(self, e, fr):
        v = self.eval(e.value, fr) if e.value is not None else None
        fr.yields.append((self.pc, v))
        return None

    def e_YieldFrom(self, e, fr):
        v = self.eval(e.value, fr)
        for s in self.iter_slots(v):
            fr.yields.append((PC(self.pc, s[0]) if s[0] != TRUE else self.pc, s[1]))
        return None

    # ------------------------------------------------------------------ iteration
    def iter_slots(self, v):
        """[(guard, value)] in iteration order"""
        if isinstance(v, SList):
            return v.slots
        if isinstance(v, tuple):
            return [(TRUE, x) for x in v]
        if isinstance(v, SRange):
            return v.slots()
        if isinstance(v, SSet):
            return v.order()
        if isinstance(v, SDict):
            return [(g, k) for k, g, _ in v.entries if g != FALSE]
        if isinstance(v, SIter):
            return v.slots
        if isinstance(v, str):
            return [(TRUE, c) for c in v]
        if isinstance(v, self.modelmod.View):
            return v.slots()
        if isinstance(v, NDArr):
            if v.a.ndim == 0:
                raise PyErr(TypeError('iteration over a 0-d array'))
            if v.a.ndim == 1:
                return [(TRUE, x) for x in v.a]
            return [(TRUE, NDArr(v.a[i], v.dt, v.pc)) for i in range(v.a.shape[0])]
        if isinstance(v, U):
            A = self.aig
            out = []
            for g, x in feasible_alts(v):
                out.extend((A.AND(g, s[0]), s[1]) for s in self.iter_slots(x))
            return [s for s in out if s[0] != FALSE]
        if isinstance(v, SObj) and v.cls_has('__iter__'):
            return self.iter_slots(self.call(self.getattr(v, '__iter__')))
        if isinstance(v, (PRIM, LP, Q)):
            raise PyErr(TypeError("'%s' object is not iterable" % type(v).__name__))
        if isinstance(v, (list, set, dict, np.ndarray)):
            return self.iter_slots(self.from_native(v))
        try:
            it = list(v)
        except Unsupported:
            raise
        except TypeError as ex:
            if callable(v) or isinstance(v, types.ModuleType):
                raise PyErr(ex)
            raise Unsupported('iteration over %s' % type(v))
        return [(TRUE, self.from_native(x)) for x in it]

    # ------------------------------------------------------------------ attributes / items
    def getattr(self, o, name):
        if isinstance(o, U):
            return self.map_alts(o, lambda x: self.getattr(x, name))
        if isinstance(o, SObj):
            if name == '__dict__':
                d = SDict(pc=o.pc)
                for k, v in o.d.items():
                    d.set(k, v, TRUE)
                return d
            if name == '__class__':
                return o.cls
            if name in o.d:
                v = o.d[name]
                if isinstance(v, U) and any(x is UNBOUND for _, x in v.alts):
                    for g, x in v.alts:
                        if x is UNBOUND:
                            self.raise_guarded(g, AttributeError(name))
                    return mku([(g, x) for g, x in v.alts if x is not UNBOUND])
                if v is UNBOUND:
                    raise PyErr(AttributeError(name))
                return v
            for c in o.cls.__mro__:
                if name in c.__dict__:
                    d = c.__dict__[name]
                    if isinstance(d, types.FunctionType):
                        return SBound(d, o)
                    if isinstance(d, staticmethod):
                        return d.__func__
                    if isinstance(d, classmethod):
                        return SBound(d.__func__, o.cls)
                    if isinstance(d, property):
                        return self.call(d.fget, (o,))
                    if isinstance(d, functools.cached_property):
                        r = self.call(d.func, (o,))
                        o.d[name] = r
                        return r
                    if c is object:
                        break
                    return self.from_native(d)
            raise PyErr(AttributeError("'%s' object has no attribute '%s'" % (o.cls.__name__, name)))
        if isinstance(o, tuple) and type(o) is not tuple:
            r = self.named_attr(o, name)
            if name == '_replace':
                return self.modelmod.Inline(r)
            if r is not None or name in type(o)._fields:
                return r
        r = self.modelmod.get_attr(self, o, name)
        return r

    def setattr(self, o, name, v):
        if isinstance(o, U):
            def f(x):
                self.setattr(x, name, v)
                return None
            self.map_alts(o, f)
            return
        if isinstance(o, SObj):
            for c in o.cls.__mro__:
                d = c.__dict__.get(name)
                if isinstance(d, property):
                    self.call(d.fset, (o, v))
                    return
            g = rel(self.pc, o.pc)
            o.d[name] = v if g == TRUE else ite(g, v, o.d.get(name, UNBOUND))
            return
        self.modelmod.set_attr(self, o, name, v)

    def getitem(self, o, i):
        if isinstance(o, U):
            return self.map_alts(o, lambda x: self.getitem(x, i))
        return self.modelmod.getitem(self, o, i)

    def setitem(self, o, i, v):
        if isinstance(o, U):
            def f(x):
                self.setitem(x, i, v)
                return None
            self.map_alts(o, f)
            return
        self.modelmod.setitem(self, o, i, v)

    # ------------------------------------------------------------------ operators
    def binop(self, op, a, b):
        if isinstance(a, PRIM) and isinstance(b, PRIM):
            if op == '@':
                raise PyErr(TypeError('@'))
            try:
                return V.OPS[op](a, b)
            except Exception as ex:
                raise PyErr(ex)
        if isinstance(a, NDArr) or isinstance(b, NDArr) or isinstance(a, self.modelmod.SpMat) \
                or isinstance(b, self.modelmod.SpMat):
            a, b = self.modelmod.mnp.merge_nd(a), self.modelmod.mnp.merge_nd(b)
            if isinstance(a, U) and not all(isinstance(x, PRIM) for _, x in a.alts):
                return self.map_alts(a, lambda x: self.binop(op, x, b))
            if isinstance(b, U):
                if not all(isinstance(x, (int, float)) for _, x in b.alts):
                    return self.map_alts(b, lambda x: self.binop(op, a, x))
            return self.modelmod.nd_binop(self, op, a, b)
        for x, y, first in ((a, b, True), (b, a, False)):
            if isinstance(x, U) and not all(isinstance(z, PRIM) for _, z in x.alts):
                if first:
                    return self.map_alts(x, lambda z: self.binop(op, z, b))
                return self.map_alts(x, lambda z: self.binop(op, a, z))
        if isinstance(a, (SList, tuple)) or isinstance(b, (SList, tuple)):
            return self.modelmod.seq_binop(self, op, a, b)
        if isinstance(a, SSet) or isinstance(b, SSet) or isinstance(a, self.modelmod.View):
            name = {'&': 'intersection', '|': 'union', '-': 'difference', '^': 'symmetric_difference'}.get(op)
            if isinstance(a, self.modelmod.View):
                a = SSet.of(self.iter_slots(a))
            if name is None or not (isinstance(a, SSet) and isinstance(b, (SSet, self.modelmod.View))):
                raise PyErr(TypeError('unsupported operand types for %s' % op))
            return self.modelmod.call_method(self, a, name, (b,), {})
        if isinstance(a, SDict) and isinstance(b, SDict) and op == '|':
            d = self.modelmod.call_method(self, a, 'copy', (), {})
            self.modelmod.call_method(self, d, 'update', (b,), {})
            return d
        if isinstance(a, (U, SB, LP, Q, PRIM)) and isinstance(b, (U, SB, LP, Q, PRIM)):
            if op in ('/', '//', '%') and not isinstance(b, PRIM) and not isinstance(a, str):
                if isinstance(b, (LP, Q)) and not (isinstance(b, LP) and b.noreal()):
                    self.notes.add('divisors that are symbolic reals are assumed non-zero')
                else:
                    z = eq(b, 0)
                    if z != FALSE:
                        self.raise_guarded(z, ZeroDivisionError('division by zero'))
                        if isinstance(b, U):
                            b = mku([(g, x) for g, x in b.alts if x != 0])
                            if b is UNBOUND:
                                raise Dead()
            if op in ('&', '|', '^') and V.isbool(a) and V.isbool(b):
                f = {'&': self.aig.AND, '|': self.aig.OR, '^': self.aig.XOR}[op]
                return mkb(f(truth(a), truth(b)))
            if isinstance(a, str) or isinstance(b, str) or (isinstance(a, U) and isinstance(a.alts[0][1], str)):
                if op == '%' and not isinstance(a, U):
                    return self.modelmod.str_percent(self, a, b)
            return num_op(op, a, b, self.raise_guarded)
        if op == '%' and isinstance(a, str):
            return self.modelmod.str_percent(self, a, b)
        if isinstance(a, SObj):
            nm = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv', '@': 'matmul', '**': 'pow'}.get(op)
            if nm and a.cls_has('__%s__' % nm):
                return self.call(self.getattr(a, '__%s__' % nm), (b,))
        raise PyErr(TypeError('unsupported operand type(s) for %s: %s and %s' % (op, type(a).__name__, type(b).__name__)))


def isbool_like(v):
    return isinstance(v, (bool, SB))


def has_yield(node):
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False
