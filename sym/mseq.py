"""Models of list / tuple / str / set / dict operations on symbolic containers."""
from .aig import FALSE, TRUE
from .vals import (st, lp_index, PC, rel, Unsupported, UNBOUND, PRIM, SB, U, mku, alts, feasible_alts, LP, Q,
                   cmp_lit, eq, truth, ite, mkb, SList, UList, SRange, SSet, SDict, SObj, NDArr, SIter,
                   positions, count_u, lp_to_u, expand_tuple, _deepflat)


class View:
    """dict view / zip-like lazily materialised sequence"""

    def __init__(self, f):
        self.f = f

    def slots(self):
        return self.f()


def perr(e):
    from .interp import PyErr
    return PyErr(e)


def dead():
    from .interp import Dead
    return Dead()


# ------------------------------------------------------------------ lists
def compact(o):
    key = (tuple([(g, id(v)) for g, v in o.slots]), tuple(o.segs) if o.segs else None, st.pc.full)
    if o.meta is not None and o.meta[0] == key:
        return o.meta[1]
    c = o.compact_slots()
    o.meta = (key, c)
    return c


def list_append(ip, o, v):
    g = rel(ip.pc, o.pc)
    if g == FALSE:
        return
    if o.segs is not None:
        o.segs.append((1, 1 if g == TRUE else None))
    elif g != TRUE and o.slots and o.isdef():
        o.segs = [(len(o.slots), len(o.slots)), (1, None)]
    o.slots.append((g, v))


def list_extend(ip, o, it):
    if isinstance(it, U):
        for g, x in feasible_alts(it):
            p0 = ip.pc
            ip.pc = PC(p0, g)
            list_extend(ip, o, x)
            ip.pc = p0
        return
    g = rel(ip.pc, o.pc)
    sl = list(ip.iter_slots(it))
    if isinstance(it, SIter):
        it.slots = []
    if isinstance(it, SList):
        sg = it.segments()
    else:
        sg = [(sl, len(sl) if all(x[0] == TRUE for x in sl) else None)]
    mine = [(len(s), L) for s, L in o.segments()] if o.slots else []
    for s, L in sg:
        if not s:
            continue
        mine.append((len(s), L if g == TRUE else None))
    A = ip.aig
    for s in sl:
        o.slots.append((A.AND(g, s[0]), s[1]))
    o.segs = mine if not all(x[0] == TRUE for x in o.slots) else None


def list_insert(ip, o, i, v):
    g = rel(ip.pc, o.pc)
    if isinstance(i, (U, SB)):
        for h, k in sorted(feasible_alts(i), key=lambda x: -x[1]):
            p0 = ip.pc
            ip.pc = PC(p0, h)
            list_insert(ip, o, k, v)
            ip.pc = p0
        return
    if i < 0 or (i != 0 and not o.isdef()):
        o.make_positional()
        if i < 0:
            if not o.isdef():
                raise Unsupported('insert at a negative index of a symbolic list')
            i = max(0, len(o.slots) + i)
    o.segs = None
    o.slots.insert(min(i, len(o.slots)), (g, v))


def list_pop(ip, o, i=-1):
    A = ip.aig
    if isinstance(i, (U, SB)):
        return ip.map_alts(i, lambda k: list_pop(ip, o, k))
    o.make_positional()
    n = len(o.slots)
    if o.isdef():
        if not -n <= i < n:
            raise perr(IndexError('pop index out of range'))
        g = rel(ip.pc, o.pc)
        v = o.slots[i][1]
        if g == TRUE:
            o.slots.pop(i)
        else:
            o.slots[i] = (g ^ 1, v)
        return v
    ex = [g for g, _ in o.slots]
    if i >= 0:
        if i >= n:
            raise perr(IndexError('pop index out of range'))
        ip.raise_guarded(ex[i] ^ 1, IndexError('pop index out of range'))
        g = rel(ip.pc, o.pc)
        v = o.slots[i][1]
        o.slots[i] = (A.AND(ex[i], g ^ 1), v)
        return v
    k = -i
    if k > n:
        raise perr(IndexError('pop from empty list'))
    ip.raise_guarded(ex[k - 1] ^ 1, IndexError('pop from empty list'))
    g = rel(ip.pc, o.pc)
    out = []
    for j in range(n):
        last = A.AND(ex[j + k - 1] if j + k - 1 < n else FALSE, (ex[j + k] if j + k < n else FALSE) ^ 1)
        if last == FALSE:
            continue
        out.append((last, o.slots[j][1]))
        o.slots[j] = (A.AND(ex[j], A.AND(g, last) ^ 1), o.slots[j][1])
    return mku(out)


def list_matches(ip, o, v):
    """per slot: guard that it is the first match (relative to o.pc); and not-found guard"""
    A = ip.aig
    nf = TRUE
    ms = []
    for g, x in o.slots:
        m = A.AND(nf, A.AND(g, ip.eq_obj(x, v)))
        ms.append(m)
        if m != FALSE:
            nf = A.AND(nf, m ^ 1)
    return ms, nf


def list_remove(ip, o, v):
    A = ip.aig
    ms, nf = list_matches(ip, o, v)
    ip.raise_guarded(nf, ValueError('list.remove(x): x not in list'))
    g = rel(ip.pc, o.pc)
    sg = [(len(s), L) for s, L in o.segments()]
    i = 0
    hit = []
    for k, (n, L) in enumerate(sg):
        if any(m != FALSE for m in ms[i:i + n]):
            hit.append(k)
        i += n
    new = []
    for (h, x), m in zip(o.slots, ms):
        r = A.AND(h, A.AND(g, m) ^ 1)
        new.append((r, x))
    if g == TRUE and len(hit) == 1 and sg[hit[0]][1] is not None:
        k = hit[0]
        segs, out, i = [], [], 0
        for j, (n, L) in enumerate(sg):
            part = new[i:i + n]
            i += n
            if j == k:
                part = [p for p in part if p[0] != FALSE]
                L -= 1
            segs.append((len(part), L))
            out.extend(part)
        o.slots[:] = out
        o.segs = segs if not all(p[0] == TRUE for p in out) else None
    else:
        segs = [(n, L if j not in hit else None) for j, (n, L) in enumerate(sg)]
        o.slots[:] = new
        o.segs = segs if any(L is not None for _, L in segs) else None


def list_index(ip, o, v, start=0):
    A = ip.aig
    if start != 0:
        raise Unsupported('list.index with a start')
    if isinstance(o, tuple):
        o = SList([(TRUE, x) for x in o], kind='tuple')
    ms, nf = list_matches(ip, o, v)
    ip.raise_guarded(nf, ValueError('%s is not in list' % (v if isinstance(v, PRIM) else 'value')))
    out = []
    base = {0: TRUE}
    i = 0
    for s, L in o.segments():
        cnt = dict(base)
        for g, x in s:
            m = ms[i]
            i += 1
            if m != FALSE:
                for k, h in cnt.items():
                    t = A.AND(m, h)
                    if t != FALSE:
                        out.append((t, k))
            cnt = _bump(A, cnt, g)
        base = {k + L: h for k, h in base.items()} if L is not None else cnt
    r = mku(out)
    if isinstance(r, U) and len(r.alts) > 1:
        f = feasible_alts(r)
        if len(f) < len(r.alts):
            r = mku(f)
    if r is UNBOUND:
        raise dead()
    return r


def _bump(A, cnt, g):
    if g == TRUE:
        return {k + 1: h for k, h in cnt.items()}
    n = {}
    for k, h in cnt.items():
        a, b = A.AND(h, g), A.AND(h, g ^ 1)
        if a != FALSE:
            n[k + 1] = A.OR(n.get(k + 1, FALSE), a)
        if b != FALSE:
            n[k] = A.OR(n.get(k, FALSE), b)
    return n


def at_least(A, guards):
    """[guard that at least k+1 of the guards hold]"""
    cnt = [TRUE]
    for g in guards:
        new = [FALSE] * (len(cnt) + 1)
        for k, h in enumerate(cnt):
            new[k] = A.OR(new[k], A.AND(h, g ^ 1))
            new[k + 1] = A.OR(new[k + 1], A.AND(h, g))
        while new and new[-1] == FALSE:
            new.pop()
        cnt = new
    out, acc = [], FALSE
    for h in reversed(cnt[1:]):
        acc = A.OR(acc, h)
        out.append(acc)
    return out[::-1]


def sorted_slots(ip, sl, known, key=None, reverse=False):
    """(slots, known length or None) of the stable sort of guarded slots"""
    A = ip.aig
    sl = [(g, v) for g, v in ((s[0], s[1]) for s in sl) if g != FALSE]
    if key is None:
        keys = [v for _, v in sl]
    else:
        keys = []
        for g, v in sl:
            if g == TRUE:
                keys.append(ip.call(key, (v,)))
            else:
                p0 = ip.pc
                ip.pc = PC(p0, g)
                keys.append(ip.call(key, (v,)))
                ip.pc = p0
    if all(isinstance(k, PRIM) or (isinstance(k, tuple) and all(isinstance(y, PRIM) for y in _deepflat(k)))
           for k in keys):
        try:
            order = sorted(range(len(sl)), key=lambda i: keys[i], reverse=reverse)
        except TypeError as e:
            raise perr(e)
        return [sl[i] for i in order], known
    if key is None and all(isinstance(x, PRIM) for k in keys for _, x in alts(k)) and \
            not any(isinstance(k, (LP, Q)) and not k.noreal() for k in keys):
        d = {}
        for g, v in sl:
            for h, x in alts(v):
                gh = A.AND(g, h)
                if gh != FALSE and x is not UNBOUND:
                    d.setdefault(x, []).append(gh)
        out = []
        try:
            vals = sorted(d, reverse=reverse)
        except TypeError as e:
            raise perr(e)
        for x in vals:
            gs = d[x]
            if len(gs) == 1:
                out.append((gs[0], x))
            elif all(A.AND(a, b) == FALSE or ip.infeasible(A.AND(ip.pc.full, A.AND(a, b)))
                     for i, a in enumerate(gs) for b in gs[:i]):
                out.append((A.ORS(gs), x))
            else:
                out.extend((h, x) for h in at_least(A, gs))
        return out, known
    # general keys: rank based
    if not all(g == TRUE for g, _ in sl):
        c = positions(sl, known)
        kc = positions([(g, k) for (g, _), k in zip(sl, keys)], known)
        if not all(g == TRUE for g, _ in c):
            return sorted_partial(A, sl, keys, reverse), known
        sl, keys = c, [k for _, k in kc]
    n = len(sl)
    before = [[FALSE] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1, n):
            # j goes before i iff strictly smaller (larger when reversed)
            jb = cmp_lit('<', keys[j], keys[i]) if not reverse else cmp_lit('<', keys[i], keys[j])
            before[j][i] = jb
            before[i][j] = jb ^ 1
    cols = [[] for _ in range(n)]
    for i in range(n):
        cnt = {0: TRUE}
        for j in range(n):
            if j != i:
                cnt = _bump(A, cnt, before[j][i])
        for k, h in cnt.items():
            cols[k].append((h, sl[i][1]))
    return [(TRUE, mku(c)) for c in cols], n


def sorted_partial(A, sl, keys, reverse):
    """sort of guarded elements with symbolic keys: slot k holds the present element of rank k"""
    n = len(sl)
    before = [[FALSE] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1, n):
            jb = cmp_lit('<', keys[j], keys[i]) if not reverse else cmp_lit('<', keys[i], keys[j])
            before[j][i] = A.AND(sl[j][0], jb)
            before[i][j] = A.AND(sl[i][0], jb ^ 1)
    cols = [[] for _ in range(n)]
    for i in range(n):
        cnt = {0: TRUE}
        for j in range(n):
            if j != i:
                cnt = _bump(A, cnt, before[j][i])
        for k, h in cnt.items():
            gh = A.AND(sl[i][0], h)
            if gh != FALSE:
                cols[k].append((gh, sl[i][1]))
    return [(A.ORS([g for g, _ in c]), mku(c)) for c in cols if c]


def list_sort(ip, o, key=None, reverse=False):
    if isinstance(reverse, (SB, U)):
        raise Unsupported('symbolic reverse')
    if isinstance(o, UList):
        raise Unsupported('sorting in place a list made from a set')
    g = rel(ip.pc, o.pc)
    s, L = sorted_slots(ip, o.slots, o.known_len(), key, reverse)
    if g == TRUE:
        o.slots[:] = s
        o.segs = [(len(s), L)] if L is not None and not all(x[0] == TRUE for x in s) else None
        return
    A = ip.aig
    p0 = ip.pc
    ip.pc = o.pc
    old = o.compact_slots()
    ip.pc = p0
    new = SList(s, segs=[(len(s), L)] if L is not None else None).compact_slots()
    out = []
    for i in range(max(len(old), len(new))):
        a = new[i] if i < len(new) else (FALSE, None)
        b = old[i] if i < len(old) else (FALSE, None)
        out.append((A.MUX(g, a[0], b[0]), ite(g, a[1], b[1]) if a[0] != FALSE and b[0] != FALSE
                    else a[1] if a[0] != FALSE else b[1]))
    o.slots[:] = out
    o.segs = None


def list_copy(o, kind=None):
    r = o.copy()
    if kind:
        r.kind = kind
    return r


def to_slist(ip, v, kind='list'):
    """new SList from any iterable"""
    if isinstance(v, U):
        return ip.map_alts(v, lambda x: to_slist(ip, x, kind))
    if isinstance(v, UList) and kind == 'list':
        return UList(list(v.raw))
    if isinstance(v, SList):
        return list_copy(v, kind)
    if isinstance(v, SSet) and kind == 'list':
        try:
            sl = v.order()
        except Unsupported:
            return UList(v.members())
    else:
        sl = ip.iter_slots(v)
    r = SList([(s[0], s[1]) for s in sl if s[0] != FALSE], kind=kind)
    if isinstance(v, SIter):
        v.slots = []
    return r


def to_tuple(ip, v):
    r = to_slist(ip, v, 'tuple')
    if isinstance(r, SList) and r.isdef():
        return tuple(x for _, x in r.slots)
    return r


# ------------------------------------------------------------------ indexing
def seq_getitem(ip, o, i):
    A = ip.aig
    if isinstance(i, LP):
        i = lp_index(i)
    if isinstance(o, tuple):
        if isinstance(i, int):
            try:
                return o[i]
            except IndexError as e:
                raise perr(e)
        if isinstance(i, slice) and all(x is None or isinstance(x, int) for x in (i.start, i.stop, i.step)):
            return o[i]
        o = SList([(TRUE, x) for x in o], kind='tuple')
    if isinstance(i, slice):
        return list_slice(ip, o, i)
    if isinstance(i, (U, SB)):
        c = compact(o)
        out = []
        bad = FALSE
        kn = o.known_len()
        for g, k in alts(i):
            if k is UNBOUND:
                continue
            if not isinstance(k, int):
                if not ip.infeasible(A.AND(ip.pc.full, g)):
                    raise perr(TypeError('list indices must be integers or slices, not %s' % type(k).__name__))
                continue
            if k < 0:
                if kn is None:
                    if ip.infeasible(A.AND(ip.pc.full, g)):
                        continue
                    raise Unsupported('symbolic negative index of a list of symbolic length')
                k += kn
            if not 0 <= k < len(c):
                bad = A.OR(bad, g)
                continue
            ex, v = c[k]
            if ex != TRUE:
                bad = A.OR(bad, A.AND(g, ex ^ 1))
            out.append((A.AND(g, ex), v))
        ip.raise_guarded(bad, IndexError('list index out of range'))
        r = mku(out)
        if r is UNBOUND:
            raise dead()
        return r
    if isinstance(i, bool):
        i = int(i)
    if not isinstance(i, int):
        raise perr(TypeError('list indices must be integers or slices, not %s' % type(i).__name__))
    if o.isdef():
        try:
            return o.slots[i][1]
        except IndexError as e:
            raise perr(e)
    c = compact(o)
    kn = o.known_len()
    if i < 0:
        if kn is None:
            k = -i
            n = len(c)
            if k > n:
                raise perr(IndexError('list index out of range'))
            ip.raise_guarded(c[k - 1][0] ^ 1, IndexError('list index out of range'))
            out = []
            for j in range(n):
                if j + k - 1 < n:
                    g = A.AND(c[j + k - 1][0], (c[j + k][0] if j + k < n else FALSE) ^ 1)
                    out.append((g, c[j][1]))
            return mku(out)
        i += kn
    if not 0 <= i < len(c):
        raise perr(IndexError('list index out of range'))
    ip.raise_guarded(c[i][0] ^ 1, IndexError('list index out of range'))
    return c[i][1]


def list_slice(ip, o, s):
    A = ip.aig
    lo, hi, step = s.start, s.stop, s.step
    if step is None:
        step = 1
    if not isinstance(step, int):
        raise Unsupported('slice with symbolic step')
    conc = all(x is None or isinstance(x, int) for x in (lo, hi))
    if conc and lo is None and hi is None and step == 1:
        return list_copy(o)
    n = o.known_len()
    if conc and n is not None and step == 1 and not o.isdef():
        a, b, _ = slice(lo, hi).indices(n)
        # along segment boundaries?
        segs = o.segments()
        off, i = 0, 0
        parts, ok = [], True
        for sl, L in segs:
            if L is None:
                ok = False
                break
            s0, e0 = off, off + L
            if a <= s0 and e0 <= b:
                parts.append((sl, L))
            elif e0 <= a or s0 >= b:
                pass
            elif L == len(sl):
                x = sl[max(a - s0, 0):b - s0]
                parts.append((x, len(x)))
            else:
                ok = False
                break
            off = e0
        if ok:
            r = SList([x for sl, _ in parts for x in sl], kind=o.kind)
            r.segs = [(len(sl), L) for sl, L in parts]
            if r.isdef():
                r.segs = None
            return _kind(r)
    if n is not None:
        d = [v for _, v in (o.slots if o.isdef() else compact(o))]
        if conc:
            d = d[slice(lo, hi, step)]
            return _kind(SList([(TRUE, v) for v in d], kind=o.kind))
        if step != 1:
            raise Unsupported('symbolic slice bounds with a step')
        out = [FALSE] * n
        for g, x in (alts(lo) if lo is not None else [(TRUE, None)]):
            for h, y in (alts(hi) if hi is not None else [(TRUE, None)]):
                gh = A.AND(g, h)
                if gh == FALSE or x is UNBOUND or y is UNBOUND:
                    continue
                a, b, _ = slice(x, y).indices(n)
                for k in range(a, b):
                    out[k] = A.OR(out[k], gh)
        r = SList([(g, v) for g, v in zip(out, d) if g != FALSE], kind=o.kind)
        w = [(y - x) for x, y in ()]
        return r
    c = compact(o)
    if conc and step == 1 and (lo is None or lo >= 0) and (hi is None or hi >= 0):
        return SList(list(c[slice(lo, hi)]), kind=o.kind)
    if conc and step == -1 and lo is None and hi is None:
        return SList(list(reversed(o.slots)), kind=o.kind)
    if conc and step == 1 and (lo is None or lo >= 0) and hi is not None and hi < 0:
        out = []
        for j, (g, v) in enumerate(c):
            if j >= (lo or 0) and j - hi < len(c):
                out.append((c[j - hi][0], v))
        return SList(out, kind=o.kind)
    if conc and step == 1 and lo is not None and lo < 0 and hi is None:
        # the last -lo elements, or all of them
        return SList([(A.AND(g, A.ORS(((c[j - lo][0] if j - lo < len(c) else FALSE) ^ 1,))), v)
                      for j, (g, v) in enumerate(c)], kind=o.kind)
    if not conc and step == 1 and hi is None:
        out = []
        for j, (g, v) in enumerate(c):
            m = A.ORS(h for h, x in alts(lo) if x is not UNBOUND and 0 <= x <= j)
            if any(x < 0 for h, x in feasible_alts(lo)):
                raise Unsupported('negative symbolic slice bound')
            out.append((A.AND(g, m), v))
        return SList(out, kind=o.kind)
    if not conc and step == 1 and lo in (None, 0):
        if any(x < 0 for h, x in feasible_alts(hi)):
            raise Unsupported('negative symbolic slice bound')
        out = [(A.AND(g, A.ORS(h for h, x in alts(hi) if x is not UNBOUND and x > j)), v)
               for j, (g, v) in enumerate(c)]
        return SList(out, kind=o.kind)
    raise Unsupported('slice of a list of symbolic length')


def _kind(r):
    if r.kind == 'tuple' and r.isdef():
        return tuple(v for _, v in r.slots)
    return r


def list_setitem(ip, o, i, v):
    A = ip.aig
    if isinstance(i, LP):
        i = lp_index(i)
    if isinstance(i, slice):
        g = rel(ip.pc, o.pc)
        if g != TRUE or not all(x is None or isinstance(x, int) for x in (i.start, i.stop, i.step)):
            raise Unsupported('guarded slice assignment')
        if i.start is None and i.stop is None and i.step is None:
            n = to_slist(ip, v)
            o.slots[:] = n.slots
            o.segs = list(n.segs) if n.segs else None
            return
        if not o.isdef():
            d = o.definite()
            if d is None:
                raise Unsupported('slice assignment of a symbolic list')
            o.slots[:] = [(TRUE, x) for x in d]
            o.segs = None
        new = to_slist(ip, v)
        if not new.isdef():
            raise Unsupported('slice assignment from a symbolic list')
        o.slots[i] = new.slots
        return
    g = rel(ip.pc, o.pc)
    if not o.isdef():
        o.make_positional()
    n = len(o.slots)
    if isinstance(i, (U, SB)):
        bad = FALSE
        todo = []
        for h, k in alts(i):
            if k is UNBOUND:
                continue
            if k < 0:
                if not o.isdef():
                    raise Unsupported('negative index store')
                k += n
            if not 0 <= k < n:
                bad = A.OR(bad, h)
            else:
                bad = A.OR(bad, A.AND(h, o.slots[k][0] ^ 1))
                todo.append((h, k))
        ip.raise_guarded(bad, IndexError('list assignment index out of range'))
        g = rel(ip.pc, o.pc)
        for h, k in todo:
            o.slots[k] = (o.slots[k][0], ite(A.AND(g, h), v, o.slots[k][1]))
        return
    if not isinstance(i, int):
        raise perr(TypeError('list indices must be integers'))
    if i < 0:
        if not o.isdef():
            raise Unsupported('negative index store into a list of symbolic length')
        i += n
    if not 0 <= i < n:
        raise perr(IndexError('list assignment index out of range'))
    ex = o.slots[i][0]
    if ex != TRUE:
        ip.raise_guarded(ex ^ 1, IndexError('list assignment index out of range'))
        g = rel(ip.pc, o.pc)
    o.slots[i] = (ex, ite(g, v, o.slots[i][1]))


def list_delitem(ip, o, i):
    if isinstance(i, slice):
        g = rel(ip.pc, o.pc)
        if g != TRUE or not o.isdef():
            raise Unsupported('guarded slice deletion')
        del o.slots[i]
        return
    list_pop(ip, o, i)


def seq_binop(ip, op, a, b):
    def L(x):
        if isinstance(x, tuple):
            return SList([(TRUE, y) for y in x], kind='tuple')
        return x
    if op == '+':
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        x, y = L(a), L(b)
        if not (isinstance(x, SList) and isinstance(y, SList)) or x.kind != y.kind:
            raise perr(TypeError('can only concatenate list (not "%s") to list' % type(b).__name__))
        r = SList(list(x.slots) + list(y.slots), kind=x.kind)
        if not r.isdef():
            r.segs = [(len(s), k) for s, k in x.segments() + y.segments() if s]
        return r
    if op == '*':
        if isinstance(b, (SList, tuple)):
            a, b = b, a
        if isinstance(b, (U, SB)):
            return ip.map_alts(b, lambda k: seq_binop(ip, op, a, k))
        if not isinstance(b, int):
            raise perr(TypeError("can't multiply sequence by non-int"))
        if isinstance(a, tuple):
            return a * b
        r = SList(list(a.slots) * b, kind=a.kind)
        if not r.isdef():
            r.segs = [(len(s), k) for s, k in a.segments()] * max(b, 0)
        return r
    if op == '%' and isinstance(a, str):
        from .models import str_percent
        return str_percent(ip, a, b)
    raise perr(TypeError('unsupported operand type(s) for %s: %s and %s' % (
        op, type(a).__name__, type(b).__name__)))


LIST = {}


def lm(f):
    LIST[f.__name__[2:]] = f
    return f


# a deque is a list with two ends
@lm
def l_appendleft(ip, o, v):
    list_insert(ip, o, 0, v)


@lm
def l_popleft(ip, o):
    return list_pop(ip, o, 0)


@lm
def l_extendleft(ip, o, v):
    for s in ip.iter_slots(v):
        if s[0] != TRUE:
            raise Unsupported('extendleft by a symbolic sequence')
        list_insert(ip, o, 0, s[1])


@lm
def l_tolist(ip, o):        # index vectors of symbolic length are lists here
    return o.copy(ip.pc)


@lm
def l_append(ip, o, v):
    list_append(ip, o, v)


@lm
def l_extend(ip, o, v):
    list_extend(ip, o, v)


@lm
def l_insert(ip, o, i, v):
    list_insert(ip, o, i, v)


@lm
def l_pop(ip, o, i=-1):
    return list_pop(ip, o, i)


@lm
def l_remove(ip, o, v):
    list_remove(ip, o, v)


@lm
def l_index(ip, o, v, start=0):
    return list_index(ip, o, v, start)


@lm
def l_sort(ip, o, *, key=None, reverse=False):
    list_sort(ip, o, key, reverse)


@lm
def l_reverse(ip, o):
    g = rel(ip.pc, o.pc)
    if g != TRUE:
        raise Unsupported('guarded list.reverse')
    sg = [(len(s), k) for s, k in o.segments()]
    o.slots.reverse()
    o.segs = sg[::-1] if not o.isdef() else None


@lm
def l_copy(ip, o):
    return list_copy(o)


@lm
def l_count(ip, o, v):
    A = ip.aig
    return count_u([A.AND(g, ip.eq_obj(x, v)) for g, x in o.slots])


@lm
def l_clear(ip, o):
    g = rel(ip.pc, o.pc)
    A = ip.aig
    o.slots[:] = [] if g == TRUE else [(A.AND(h, g ^ 1), v) for h, v in o.slots]
    o.segs = None


# ------------------------------------------------------------------ sets
def as_set(ip, x):
    if isinstance(x, SSet):
        return x
    return SSet.of([(s[0], ip.hashable(s[1])) for s in ip.iter_slots(x)])


def _size_le(ip, a, b):
    """literal |a| <= |b|"""
    return cmp_lit('<=', count_u([g for g, _ in a.members()]), count_u([g for g, _ in b.members()]))


def set_inter(ip, a, b):
    A = ip.aig
    bs = as_set(ip, b)
    r = SSet(frozen=a.frozen)
    a.noreal()
    bs.noreal()
    if not isinstance(b, SSet):
        # iterates the other iterable
        for s in ip.iter_slots(b):
            g = A.AND(s[0], a.contains(s[1]))
            if g != FALSE:
                r.add(s[1], g)
        return r
    vals = set(a.mem()) | set(bs.mem())
    simple = all(isinstance(v, int) and 0 <= v < 8 for v in vals)
    if simple:
        for v, g in a.mem().items():
            h = bs.mem().get(v, FALSE)
            gh = A.AND(g, h)
            if gh != FALSE:
                r.ins.append((gh, v))
        return r
    le = _size_le(ip, bs, a)     # CPython: if other is bigger, iterate self; else iterate other
    # set_intersection: if PySet_GET_SIZE(other) > PySet_GET_SIZE(so): swap -> iterate the smaller 'other'
    try:
        if le != FALSE:
            for g, v in bs.order():
                gh = A.AND(A.AND(g, le), a.mem().get(v, FALSE))
                if gh != FALSE:
                    r.ins.append((gh, v))
        if le != TRUE:
            for g, v in a.order():
                gh = A.AND(A.AND(g, le ^ 1), bs.mem().get(v, FALSE))
                if gh != FALSE:
                    r.ins.append((gh, v))
    except Unsupported:
        r.ins = [(A.AND(g, bs.mem().get(v, FALSE)), v) for g, v in a.members()]
        r.ins = [x for x in r.ins if x[0] != FALSE]
    return r


def set_union(ip, a, *bs):
    r = SSet(list(a.ins), frozen=a.frozen)
    try:
        r.ins = [(g, v) for g, v in a.order()]
    except Unsupported:
        pass
    for b in bs:
        for s in (b.order() if isinstance(b, SSet) and _ok(b) else b.members() if isinstance(b, SSet)
                  else ip.iter_slots(b)):
            r.add(ip.hashable(s[1]), s[0])
    return r


def _ok(b):
    try:
        b.order()
        return True
    except Unsupported:
        return False


def set_diff(ip, a, b, sym=False):
    A = ip.aig
    bs = as_set(ip, b)
    a.noreal()
    bs.noreal()
    src = a.order() if _ok(a) else a.members()
    r = SSet(frozen=a.frozen)
    for g, v in src:
        gh = A.AND(g, bs.mem().get(v, FALSE) ^ 1)
        if gh != FALSE:
            r.ins.append((gh, v))
    if sym:
        for g, v in (bs.order() if _ok(bs) else bs.members()):
            gh = A.AND(g, a.mem().get(v, FALSE) ^ 1)
            if gh != FALSE:
                r.ins.append((gh, v))
    return r


def set_assign(ip, o, new):
    """in-place update of o to new under the current pc"""
    A = ip.aig
    g = rel(ip.pc, o.pc)
    if g == TRUE:
        o.ins = list(new.ins)
    else:
        o.ins = [(A.AND(h, g), v) for h, v in new.ins] + [(A.AND(h, g ^ 1), v) for h, v in o.ins]
        o.ins = [x for x in o.ins if x[0] != FALSE]
    o._mem = None


def set_method(ip, o, name, args):
    A = ip.aig
    if name == 'add':
        g = rel(ip.pc, o.pc)
        o.add(ip.hashable(args[0]), g)
        return None
    if name in ('remove', 'discard'):
        v = ip.hashable(args[0])
        if name == 'remove':
            ip.raise_guarded(o.contains(v) ^ 1, KeyError('set.remove'))
        g = rel(ip.pc, o.pc)
        for h, x in alts(v):
            gh = A.AND(g, h)
            if gh != FALSE:
                o.ins = [(A.AND(k, gh ^ 1) if y == x else k, y) for k, y in o.ins]
        o.ins = [x for x in o.ins if x[0] != FALSE]
        o._mem = None
        return None
    if name in ('update',):
        g = rel(ip.pc, o.pc)
        for a in args:
            for s in ip.iter_slots(a):
                o.add(ip.hashable(s[1]), A.AND(g, s[0]))
        return None
    if name == 'intersection':
        r = o.copy()
        for a in args:
            r = set_inter(ip, r, a)
        return r
    if name == 'union':
        return set_union(ip, o, *args)
    if name == 'difference':
        r = o.copy()
        for a in args:
            r = set_diff(ip, r, a)
        return r
    if name == 'symmetric_difference':
        return set_diff(ip, o, args[0], True)
    if name == 'intersection_update':
        set_assign(ip, o, set_inter(ip, o, args[0]))
        return None
    if name == 'difference_update':
        set_assign(ip, o, set_diff(ip, o, args[0]))
        return None
    if name == 'symmetric_difference_update':
        set_assign(ip, o, set_diff(ip, o, args[0], True))
        return None
    if name == 'copy':
        return o.copy()
    if name == 'clear':
        set_assign(ip, o, SSet())
        return None
    if name == 'issubset':
        return mkb(o.subset_lit(as_set(ip, args[0])))
    if name == 'issuperset':
        return mkb(as_set(ip, args[0]).subset_lit(o))
    if name == 'isdisjoint':
        b = as_set(ip, args[0])
        return mkb(A.ORS(A.AND(g, b.mem().get(v, FALSE)) for g, v in o.members()) ^ 1)
    if name == 'pop':
        l = SList(o.order())
        v = list_pop(ip, l, 0)
        set_method(ip, o, 'discard', (v,))
        return v
    raise perr(AttributeError("'set' object has no attribute '%s'" % name))


# ------------------------------------------------------------------ dicts
def dict_get(ip, o, k, strict=True, dflt=None):
    A = ip.aig
    if isinstance(k, U):
        return ip.map_alts(k, lambda x: dict_get(ip, o, x, strict, dflt))
    p, v = o.lookup(ip.hashable(k))
    if not strict:
        return dflt if p == FALSE else ite(p, v, dflt)
    if o.default is not None and p != TRUE:
        miss = A.AND(ip.pc.full, p ^ 1)
        if not ip.infeasible(miss):
            p0 = ip.pc
            ip.pc = PC(p0, p ^ 1)
            d = ip.call(o.default, ())
            o.set(k, d, rel(ip.pc, o.pc))
            ip.pc = p0
            return d if p == FALSE else ite(p, v, d)
        return v
    ip.raise_guarded(p ^ 1, KeyError(k if isinstance(k, PRIM) else repr(k)))
    return v


def dict_method(ip, o, name, args, kw):
    A = ip.aig
    if name == 'get':
        return dict_get(ip, o, args[0], False, args[1] if len(args) > 1 else None)
    if name == 'keys':
        return View(lambda: [(g, k) for k, g, _ in o.entries if g != FALSE])
    if name == 'values':
        return View(lambda: [(g, v) for _, g, v in o.entries if g != FALSE])
    if name == 'items':
        return View(lambda: [(g, (k, v)) for k, g, v in o.entries if g != FALSE])
    if name == 'copy':
        r = SDict([[k, g, v] for k, g, v in o.entries])
        r.default = o.default
        return r
    if name == 'update':
        g = rel(ip.pc, o.pc)
        if args:
            src = args[0]
            if isinstance(src, SDict):
                for k, h, v in list(src.entries):
                    o.set(k, v, A.AND(g, h))
            else:
                for h, kv in ip.iter_slots(src):
                    k, v = ip.unpack(kv, 2, None)
                    o.set(ip.hashable(k), v, A.AND(g, h))
        for k, v in kw.items():
            o.set(k, v, g)
        return None
    if name == 'setdefault':
        k = ip.hashable(args[0])
        d = args[1] if len(args) > 1 else None
        p, v = o.lookup(k)
        if p != TRUE:
            p0 = ip.pc
            ip.pc = PC(p0, p ^ 1)
            o.set(k, d, rel(ip.pc, o.pc))
            ip.pc = p0
        return d if p == FALSE else ite(p, v, d)
    if name == 'pop':
        k = ip.hashable(args[0])
        p, v = o.lookup(k)
        if len(args) > 1:
            r = args[1] if p == FALSE else ite(p, v, args[1])
        else:
            ip.raise_guarded(p ^ 1, KeyError('pop'))
            r = v
        o.delete(k, rel(ip.pc, o.pc))
        return r
    if name == 'clear':
        g = rel(ip.pc, o.pc)
        for e in o.entries:
            e[1] = A.AND(e[1], g ^ 1)
        return None
    raise perr(AttributeError("'dict' object has no attribute '%s'" % name))
