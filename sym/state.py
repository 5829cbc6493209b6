"""Does a module keep state between calls?  When it does, concrete calls must not be folded natively (the state of the real
module is not the state of the symbolic one), so everything is interpreted.  Over-approximation: a wrong 'yes' only costs time."""
import ast

MUTATE = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'update', 'setdefault', 'add', 'discard', 'popitem', 'sort', 'reverse',
          'appendleft', 'popleft', 'move_to_end', 'fill', 'difference_update', 'intersection_update', '__setitem__', 'increment'}
PURE = {'int', 'float', 'bool', 'len', 'sum', 'abs', 'tuple', 'frozenset', 'str', 'comb', 'factorial', 'min', 'max', 'round', 'repr', 'binom',
        'any', 'all'}


def root(x):
    while isinstance(x, (ast.Attribute, ast.Subscript)):
        x = x.value
    return x.id if isinstance(x, ast.Name) else None


def mutated(fn, modules=()):
    """(names mutated in place in fn, names bound in fn), nested functions excluded"""
    out, bound = set(), set()
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            if not isinstance(n, ast.Lambda):
                bound.add(n.name)
            continue
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            out.update(n.names)
        if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(root(n))
        if isinstance(n, ast.AugAssign):
            out.add(root(n.target))
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            bound.add(n.id)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATE and not (
                isinstance(n.func.value, ast.Name) and n.func.value.id in modules):
            out.add(root(n.func.value))
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            bound.update((a.asname or a.name).split('.')[0] for a in n.names)
        todo.extend(ast.iter_child_nodes(n))
    return out, bound


def params(fn):
    a = fn.args
    return a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]


def immutable(e):
    """expression whose value clearly is no container that could be changed"""
    if isinstance(e, (ast.Constant, ast.Compare, ast.JoinedStr)) or e is None:
        return True
    if isinstance(e, ast.Tuple):
        return all(immutable(x) for x in e.elts)
    if isinstance(e, ast.UnaryOp):
        return isinstance(e.op, ast.Not) or immutable(e.operand)
    if isinstance(e, ast.BinOp):
        return immutable(e.left) or immutable(e.right)
    if isinstance(e, ast.BoolOp):
        return all(immutable(x) for x in e.values)
    if isinstance(e, ast.IfExp):
        return immutable(e.body) and immutable(e.orelse)
    if isinstance(e, ast.Call):
        f = e.func
        n = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ''
        return n in PURE
    return False


def stateful(tree):
    top = {n.name for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)}
    classes = [n for n in ast.walk(tree) if isinstance(n, ast.ClassDef)]
    shared = set()
    modules = {(a.asname or a.name).split('.')[0] for n in ast.walk(tree) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
    for c in classes:
        for s in c.body:
            if isinstance(s, (ast.Assign, ast.AnnAssign)) and isinstance(s.value, (
                    ast.List, ast.Dict, ast.Set, ast.Call, ast.ListComp, ast.DictComp)):
                shared.update(t.id for t in (s.targets if isinstance(s, ast.Assign) else [s.target]) if isinstance(t, ast.Name))

    def visit(fn, outer):
        """outer: names bound in enclosing functions"""
        for d in fn.decorator_list:
            t = ast.unparse(d)
            if 'cache' in t and not all(immutable(r.value) for r in ast.walk(fn) if isinstance(r, ast.Return)):
                return 'cached function ' + fn.name
        out, bound = mutated(fn, modules)
        ps = params(fn)
        names = {p.arg for p in ps}
        a = fn.args
        pos = a.posonlyargs + a.args
        for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
            if d is not None and not isinstance(d, (ast.Constant, ast.UnaryOp, ast.Name)) and p.arg in out:
                return 'default argument %s of %s' % (p.arg, fn.name)
        inner = [n for n in ast.walk(fn) if isinstance(n, ast.FunctionDef) and n is not fn]
        leaks = any(isinstance(n, ast.Return) and isinstance(n.value, ast.Name) and n.value.id in {x.name for x in inner}
                    for n in ast.walk(fn))
        for x in out - names - bound - {None, 'self', 'cls'}:
            if x not in outer:
                return 'module name %s in %s' % (x, fn.name)
        if shared:
            for n in ast.walk(fn):
                if isinstance(n, ast.Attribute) and n.attr in shared:
                    return 'class attribute %s in %s' % (n.attr, fn.name)
        for n in inner:
            o2, b2 = mutated(n, modules)
            free = o2 - {p.arg for p in params(n)} - b2
            if leaks and free & (names | bound):
                return 'closure %s in %s' % (sorted(free & (names | bound))[0], fn.name)
            r = visit(n, outer | names | bound)
            if r:
                return r
        return None
    todo = [n for n in tree.body if isinstance(n, ast.FunctionDef)]
    for c in classes:
        todo += [n for n in c.body if isinstance(n, ast.FunctionDef)]
    for n in todo:
        r = visit(n, set())
        if r:
            return r
    # iterators kept at module level are consumed by their users
    for s in tree.body:
        if isinstance(s, ast.Assign) and isinstance(s.value, (ast.GeneratorExp, ast.Call)):
            t = ast.unparse(s.value)
            if isinstance(s.value, ast.GeneratorExp) or t.split('(')[0].split('.')[-1] in ('iter', 'count', 'cycle', 'map', 'filter', 'zip'):
                return 'iterator ' + ast.unparse(s.targets[0])
    return None
