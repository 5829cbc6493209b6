"""Models of builtins and of the library functions the repository uses."""
import ast
import builtins
import copy as copymod
import functools
import itertools
import math
import operator
import pickle
import types
import collections
import bisect as bisectmod
import numpy as np
from .aig import FALSE, TRUE
from . import vals as V
from .vals import (st, PC, rel, Unsupported, UNBOUND, PRIM, SB, U, mku, alts, feasible_alts, LP, Q,
                   cmp_lit, eq, truth, ite, mkb, SList, SRange, SSet, SDict, SObj, NDArr, SIter,
                   count_u, lp_to_u, num_op, tolp, Fraction, isbool)
from . import mseq
from .mseq import (View, perr, dead, to_slist, to_tuple, sorted_slots, compact, list_delitem,
                   seq_getitem, list_setitem, seq_binop, dict_get, dict_method, set_method, LIST, as_set)


class Opaque:
    """inert object; methods by name"""

    def __init__(self, name, methods=None, enter=None, it=None):
        self.name, self.methods, self.enter, self.it = name, methods or {}, enter, it

    def call(self, ip, args, kw):
        return None


class Inline(Opaque):
    """function of the engine as a value"""

    def __init__(self, f):
        Opaque.__init__(self, 'function')
        self.f = f

    def call(self, ip, args, kw):
        return self.f(ip, *args, **kw)


class Text(Opaque):
    """printable text whose content is not modelled"""

    def __init__(self):
        Opaque.__init__(self, 'text')

    def __str__(self):
        return '<text>'


class JText(Opaque):
    """result of json.dumps: carries the serialised value in JSON normal form"""

    def __init__(self, v):
        Opaque.__init__(self, 'json')
        self.v = v


from . import mnp           # noqa: E402
from .mnp import (SpMat, sparse_from_native, nd_native, nd_binop, nd_compare)   # noqa: E402


# ------------------------------------------------------------------ native calls
def call_native(ip, f, args, kw):
    """library function without a model: natively on concrete arguments"""
    if all(ip.conc(a) for a in args) and all(ip.conc(a) for a in kw.values()):
        return native_once(ip, f, args, kw)
    combos = 1
    allv = list(args) + list(kw.values())
    for a in allv:
        if isinstance(a, (U, SB, LP)):
            if isinstance(a, LP) and lp_to_u(a) is None:
                combos = 0
                break
            aa = alts(a)
            if not all(ip.conc(x) for _, x in aa):
                combos = 0
                break
            combos *= len(aa)
        elif not ip.conc(a):
            combos = 0
            break
    if not combos or combos > 400:
        raise Unsupported('native call of %s on symbolic arguments' % getattr(f, '__name__', f))
    names = list(kw)

    def rec(i, acc):
        if i == len(allv):
            return native_once(ip, f, acc[:len(args)], dict(zip(names, acc[len(args):])))
        if isinstance(allv[i], (U, SB, LP)):
            return ip.map_alts(allv[i], lambda x: rec(i + 1, acc + [x]))
        return rec(i + 1, acc + [allv[i]])
    return rec(0, [])


FORBID = {'system', 'popen', 'remove', 'unlink', 'rmdir', 'rmtree', 'rename', 'replace', 'kill', 'chmod'}


def native_once(ip, f, args, kw):
    name = getattr(f, '__name__', '') or ''
    mod = getattr(f, '__module__', '') or ''
    if name in FORBID and mod in ('os', 'posix', 'shutil', 'subprocess', 'pathlib'):
        raise Unsupported('native call of %s' % name)
    memo = {}
    try:
        na = [ip.to_native(a, memo) for a in args]
        nk = {k: ip.to_native(a, memo) for k, a in kw.items()}
    except TypeError as e:
        raise perr(e)
    try:
        before = pickle.dumps((na, nk))
    except Exception:
        before = None
    try:
        r = f(*na, **nk)
    except (Unsupported, AssertionError):
        raise
    except Exception as e:
        raise perr(e)
    if before is not None:
        try:
            if pickle.dumps((na, nk)) != before and pickle.dumps(pickle.loads(before)) != pickle.dumps((na, nk)):
                raise Unsupported('native call of %s mutates its arguments' % name)
        except Unsupported:
            raise
        except Exception:
            pass
    if isinstance(r, types.GeneratorType):
        r = list(r)
    return ip.from_native(r, {})


def decorate(ip, dec, v):
    n = getattr(dec, '__name__', '') or getattr(type(dec), '__name__', '')
    if dec in (functools.lru_cache, functools.cache) or 'cache' in n or dec in (staticmethod,) or n == 'wraps':
        return v
    if isinstance(dec, functools.partial) or callable(dec) or isinstance(dec, Opaque):
        if isinstance(dec, types.FunctionType) and dec.__module__ == 'functools':
            return v
        return ip.call(dec, (v,))
    return v


# ------------------------------------------------------------------ attributes, items, contexts
def get_attr(ip, o, name):
    if isinstance(o, NDArr):
        return mnp.nd_attr(ip, o, name)
    if isinstance(o, SpMat):
        return mnp.sp_attr(ip, o, name)
    if isinstance(o, (SList, SSet, SDict, SIter, str, tuple, View)):
        if isinstance(o, SDict) and name not in DICT_METHODS:
            raise perr(AttributeError("'dict' object has no attribute '%s'" % name))
        if isinstance(o, SList) and name not in LIST:
            raise perr(AttributeError("'%s' object has no attribute '%s'" % (o.kind, name)))
        if isinstance(o, str) and not hasattr(str, name):
            raise perr(AttributeError("'str' object has no attribute '%s'" % name))
        if isinstance(o, tuple) and not hasattr(tuple, name):
            raise perr(AttributeError("'tuple' object has no attribute '%s'" % name))
        if isinstance(o, SSet) and not hasattr(set, name):
            raise perr(AttributeError("'set' object has no attribute '%s'" % name))
        return SMeth(o, name)
    if isinstance(o, Opaque):
        if isinstance(o, JText) and name != 'v':
            raise Unsupported('operation on serialised text')
        return SMeth(o, name)
    if isinstance(o, (LP, Q, SB)):
        if name == 'real':
            return o
        if name in ('conjugate', 'conj'):
            return SMeth(o, name)
        if name == 'imag':
            return 0
        if name == 'item':
            return SMeth(o, name)
        if name in ('shape',):
            return ()
        raise perr(AttributeError("'float' object has no attribute '%s'" % name))
    from .interp import SFunc, SBound
    if isinstance(o, SFunc):
        if name == '__name__':
            return o.name
        raise perr(AttributeError(name))
    if isinstance(o, SBound):
        raise perr(AttributeError(name))
    try:
        r = getattr(o, name)
    except AttributeError as e:
        raise perr(e)
    if isinstance(o, types.ModuleType):
        k = (id(o.__dict__), name)
        if k in ip.gover:
            return ip.gover[k]
        if isinstance(r, (list, dict, set, np.ndarray)):
            return ip.from_native(r)
        if isinstance(r, PRIM):
            return ip.from_native(r)
        return r
    return ip.from_native(r)


def SMeth(o, name):
    from .interp import SMethod
    return SMethod(o, name)


DICT_METHODS = {'get', 'keys', 'values', 'items', 'copy', 'update', 'setdefault', 'pop', 'clear'}


def set_attr(ip, o, name, v):
    if isinstance(o, NDArr) and name == 'shape':
        o.a = o.a.reshape(v)
        return
    if isinstance(o, NDArr) and name == 'dtype':
        from . import mnp
        d = mnp.dtname(v)
        if d == o.dt:
            return
        if (d, o.dt) == ('float', 'int') and all(type(x) is int for x in o.a.flat):
            import numpy as np
            w = np.array([int(x) for x in o.a.flat], dtype=np.int64).view(np.float64)
            for i, x in enumerate(w):
                o.a.flat[i] = float(x)
            o.dt = d
            return
        raise Unsupported('reinterpreting the bytes of an array')
    if isinstance(o, Opaque):
        return
    if isinstance(o, types.ModuleType):
        k = (id(o.__dict__), name)
        ip.gover[k] = v
        return
    raise Unsupported('attribute store on %s' % type(o))


def getitem(ip, o, i):
    if isinstance(o, (SList, tuple)):
        return seq_getitem(ip, o, i)
    if isinstance(o, SDict):
        return dict_get(ip, o, i)
    if isinstance(o, NDArr):
        return mnp.nd_getitem(ip, o, i)
    if isinstance(o, SpMat):
        return mnp.sp_getitem(ip, o, i)
    if isinstance(o, str):
        if isinstance(i, (int, slice)) and ip.conc(i):
            try:
                return o[i]
            except Exception as e:
                raise perr(e)
        return ip.map_alts(i, lambda k: getitem(ip, o, k))
    if isinstance(o, SRange):
        r = o.native()
        if r is not None and isinstance(i, (int, slice)) and ip.conc(i):
            try:
                return ip.from_native(r[i])
            except IndexError as e:
                raise perr(e)
        return seq_getitem(ip, SList([(TRUE, x) for x in r]) if r is not None else SList(o.slots()), i)
    if isinstance(o, SObj):
        return ip.call(ip.getattr(o, '__getitem__'), (i,))
    if isinstance(o, (list, dict, np.ndarray)):
        return getitem(ip, ip.from_native(o), i)
    if isinstance(o, type) or isinstance(o, types.GenericAlias):
        return o
    if isinstance(o, PRIM) or isinstance(o, (LP, Q, SB, SSet, View, SIter)):
        raise perr(TypeError("'%s' object is not subscriptable" % type(o).__name__))
    if ip.conc(i):
        try:
            return ip.from_native(o[ip.to_native(i)])
        except Exception as e:
            raise perr(e)
    raise Unsupported('subscript of %s' % type(o))


def setitem(ip, o, i, v):
    if isinstance(o, SList) and o.kind == 'list':
        return list_setitem(ip, o, i, v)
    if isinstance(o, SDict):
        o.set(ip.hashable(i), v, rel(ip.pc, o.pc))
        return
    if isinstance(o, NDArr):
        return mnp.nd_setitem(ip, o, i, v)
    if isinstance(o, SpMat):
        return mnp.sp_setitem(ip, o, i, v)
    if isinstance(o, SObj):
        return ip.call(ip.getattr(o, '__setitem__'), (i, v))
    if isinstance(o, (tuple, str)) or isinstance(o, SList):
        raise perr(TypeError("object does not support item assignment"))
    raise Unsupported('item store on %s' % type(o))


def delitem(ip, o, i):
    if isinstance(o, SList):
        return list_delitem(ip, o, i)
    if isinstance(o, SDict):
        ip.raise_guarded(o.contains(i) ^ 1, KeyError('del'))
        o.delete(i, rel(ip.pc, o.pc))
        return
    raise Unsupported('del item of %s' % type(o))


def ctx_enter(ip, c):
    if isinstance(c, Opaque):
        return c if c.enter is None else c.enter
    if isinstance(c, SObj):
        return ip.call(ip.getattr(c, '__enter__'), ())
    if hasattr(c, '__enter__') and type(c).__module__ in ('contextlib', 'warnings', 'numpy', 'decimal'):
        return c
    raise Unsupported('with %s' % type(c))


def ctx_exit(ip, c):
    if isinstance(c, Opaque):
        e = c.methods.get('__exit__')
        if e:
            e(ip)
        return
    if isinstance(c, SObj):
        ip.call(ip.getattr(c, '__exit__'), (None, None, None))


# ------------------------------------------------------------------ methods
def call_method(ip, o, name, args, kw):
    if isinstance(o, U):
        return ip.map_alts(o, lambda x: call_method(ip, x, name, args, kw))
    if isinstance(o, SList):
        f = LIST.get(name)
        if f is None or (o.kind == 'tuple' and name not in ('index', 'count')):
            raise perr(AttributeError(name))
        return f(ip, o, *args, **kw)
    if isinstance(o, tuple):
        if name == 'index':
            return mseq.list_index(ip, o, *args)
        if name == 'count':
            return count_u([ip.eq_obj(x, args[0]) for x in o])
    if isinstance(o, SSet):
        return set_method(ip, o, name, args)
    if isinstance(o, SDict):
        return dict_method(ip, o, name, args, kw)
    if isinstance(o, str):
        return str_method(ip, o, name, args, kw)
    if isinstance(o, NDArr):
        return mnp.nd_method(ip, o, name, args, kw)
    if isinstance(o, SpMat):
        return mnp.sp_method(ip, o, name, args, kw)
    if isinstance(o, Opaque):
        f = o.methods.get(name)
        return f(ip, *args, **kw) if f else None
    if isinstance(o, (LP, Q, SB)):
        return o
    if isinstance(o, SIter):
        if name == '__next__':
            return do_next(ip, o)
    raise Unsupported('method %s of %s' % (name, type(o)))


def str_method(ip, o, name, args, kw):
    if name == 'join':
        it = args[0]
        if isinstance(it, U):
            return ip.map_alts(it, lambda x: str_method(ip, o, name, (x,), kw))
        sl = ip.iter_slots(it)
        acc = None
        first = TRUE
        A = ip.aig
        for s in sl:
            g, v = s[0], s[1]
            if isinstance(v, Text):
                return Text()
            if not all(isinstance(x, str) for _, x in feasible_alts(v)):
                raise perr(TypeError('sequence item: expected str instance'))
            if acc is None:
                n = v
            else:
                sep = num_op('+', acc, o) if first == FALSE else ite(first, acc, num_op('+', acc, o))
                n = num_op('+', sep, v)
            acc = n if g == TRUE else ite(g, n, acc if acc is not None else '')
            first = A.AND(first, g ^ 1)
        return '' if acc is None else acc
    if name == 'format' and not all(ip.conc(a) for a in list(args) + list(kw.values())):
        return str_format(ip, o, args, kw)
    return call_native(ip, getattr(o, name), args, kw)


def str_format(ip, o, args, kw):
    import string
    out = ''
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(o):
        out = num_op('+', out, lit) if lit else out
        if field is None:
            continue
        head = field.split('.')[0].split('[')[0]
        if head == '':
            v = args[auto]
            auto += 1
        elif head.isdigit():
            v = args[int(head)]
        else:
            v = kw[head]
        if field != head and field not in ('',):
            raise Unsupported('compound format field')
        t = fmt(ip, v, {'r': 114, 's': 115, 'a': 97}.get(conv, -1), spec or '')
        if isinstance(t, Text):
            return t
        out = num_op('+', out, t)
    return out


def fmt(ip, v, conv, spec):
    """str of a formatted value (f-strings, format)"""
    if isinstance(spec, (U, SB)):
        return ip.map_alts(spec, lambda s: fmt(ip, v, conv, s))
    if isinstance(v, str) and not spec and conv == -1:
        return v
    if isinstance(v, LP):
        u = lp_to_u(v)
        if u is None:
            return Text()
        v = u
    if isinstance(v, (U, SB)):
        out = []
        for g, x in alts(v):
            if x is UNBOUND:
                continue
            t = fmt(ip, x, conv, spec)
            if isinstance(t, Text):
                return t
            out.append((g, t))
        return mku(out)
    if isinstance(v, (SObj,)) and not v.cls_has('__str__') and not v.cls_has('__repr__') \
            and not v.cls_has('__format__'):
        return Text()
    if isinstance(v, tuple) and not ip.conc(v):
        v = SList([(TRUE, x) for x in v], kind='tuple')
    if isinstance(v, SList) and not ip.conc(v):
        d = v.definite()
        if d is None:
            # symbolic length: split by length
            c = compact(v)
            n = count_u([g for g, _ in v.slots])
            return mku([(g, fmt(ip, SList([(TRUE, x) for _, x in c[:k]], kind=v.kind), conv, spec))
                        for g, k in feasible_alts(n)])
        parts = [fmt(ip, x, 114, '') for x in d]
        if any(isinstance(p, Text) for p in parts):
            return Text()
        tot = 1
        for p in parts:
            tot *= len(alts(p))
        if tot > 5000:
            return Text()
        out = '[' if v.kind == 'list' else '('
        for k, p in enumerate(parts):
            out = num_op('+', out, num_op('+', ', ' if k else '', p))
        return num_op('+', out, ']' if v.kind == 'list' else ',)' if len(parts) == 1 else ')')
    if isinstance(v, Fraction):
        v = float(v)
    if not ip.conc(v):
        return Text()
    x = ip.to_native(v)
    try:
        x = {-1: lambda y: y, 115: str, 114: repr, 97: ascii}[conv](x)
        return format(x, spec)
    except Exception as e:
        raise perr(e)


def str_percent(ip, a, b):
    if ip.conc(b):
        try:
            return a % ip.to_native(b)
        except Exception as e:
            raise perr(e)
    if isinstance(b, tuple):
        if any(isinstance(x, (U, SB, LP)) for x in b):
            for i, x in enumerate(b):
                if isinstance(x, LP) and lp_to_u(x) is None or not isinstance(x, (U, SB, LP)) and not ip.conc(x):
                    return Text()
                if isinstance(x, (U, SB, LP)):
                    return ip.map_alts(x, lambda y: str_percent(ip, a, b[:i] + (y,) + b[i + 1:]))
        return Text()
    if isinstance(b, LP) and lp_to_u(b) is not None:
        b = lp_to_u(b)
        if isinstance(b, PRIM):
            return str_percent(ip, a, b)
    if isinstance(b, (U, SB)):
        return ip.map_alts(b, lambda y: str_percent(ip, a, y))
    return Text()


from .mbuiltin import build, do_next       # noqa: E402,F401
