"""Library functions written out in Python: interpreted like the code under test when their arguments are symbolic."""


def pairwise(it):
    xs = list(it)
    return [(xs[i], xs[i + 1]) for i in range(len(xs) - 1)]


def zip_longest(*its, fillvalue=None):
    cols = [list(x) for x in its]
    n = max([len(c) for c in cols] + [0])
    return [tuple([c[i] if i < len(c) else fillvalue for c in cols]) for i in range(n)]


def starmap(f, it):
    return [f(*x) for x in it]


def takewhile(f, it):
    out = []
    for x in it:
        if not f(x):
            break
        out.append(x)
    return out


def dropwhile(f, it):
    out = []
    on = False
    for x in it:
        if on or not f(x):
            on = True
            out.append(x)
    return out


def filterfalse(f, it):
    return [x for x in it if not (f(x) if f is not None else x)]


def compress(data, selectors):
    return [x for x, s in zip(data, selectors) if s]


def groupby(it, key=None):
    out = []
    last = None
    for x in it:
        k = x if key is None else key(x)
        if out and last == k:
            out[-1][1].append(x)
        else:
            out.append((k, [x]))
        last = k
    return out


def prod(it, start=1):
    r = start
    for x in it:
        r = r * x
    return r


def fsum(it):
    r = 0.0
    for x in it:
        r = r + x
    return r


def dist(p, q):
    return sum([(a - b) ** 2 for a, b in zip(p, q)]) ** .5


def concat(a, b):
    return a + b


def countOf(a, b):
    return sum([1 for x in a if x == b])


def indexOf(a, b):
    for i, x in enumerate(a):
        if x == b:
            return i
    raise ValueError('sequence.index(x): x not in sequence')


def contains(a, b):
    return b in a


def fromkeys(it, value=None):
    return {x: value for x in it}
