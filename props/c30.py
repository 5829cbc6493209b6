"""C30 orthonormalisation spans the same space with orthonormal vectors"""
import davidson as dav
from common import *
from harness import Unit, Vec


def gram(v, n, m):
    """columns of v: linearly independent"""
    before = [[v[i, j] for j in range(m)] for i in range(n)]
    assume(nonzero(det_gram(before, n, m)))
    a = dav.gramSchmidt(v)
    check(a.shape == (n, m), 'shape')
    for j in range(m):
        for k in range(j):
            check(close(sum([a[i, j] * a[i, k] for i in range(n)]), 0), 'columns are not orthogonal')
        check(close(sum([a[i, j] * a[i, j] for i in range(n)]), 1), 'column is not normalised')
    for j in range(m):
        c = [sum([a[i, k] * before[i][j] for i in range(n)]) for k in range(j + 1)]
        for i in range(n):
            check(close(sum([c[k] * a[i, k] for k in range(j + 1)]), before[i][j]), 'input is not spanned')
            check(v[i, j] == before[i][j], 'input changed')
    return False


def part(x, cols, k, n):
    """column k is arbitrary, the others are given"""
    cols = [list(col) for col in cols]
    cols.insert(k, [x[i, 0] for i in range(n)])
    return gram(np.array([[col[i] for col in cols] for i in range(n)]), n, len(cols))


def det_gram(v, n, m):
    """product of the Gram determinants of the first k columns: non-zero for independent vectors"""
    g = [[sum([v[i][j] * v[i][k] for i in range(n)]) for k in range(m)] for j in range(m)]
    p = g[0][0]
    if m > 1:
        p = p * (g[0][0] * g[1][1] - g[0][1] * g[1][0])
    if m > 2:
        p = p * (g[0][0] * (g[1][1] * g[2][2] - g[1][2] * g[2][1]) - g[0][1] * (g[1][0] * g[2][2] - g[1][2] * g[2][0])
                 + g[0][2] * (g[1][0] * g[2][1] - g[1][1] * g[2][0]))
    if m > 3:
        p = determinant(g)
    return p


def determinant(g):
    if len(g) == 1:
        return g[0][0]
    s = 0
    for j in range(len(g)):
        s = s + (-1) ** j * g[0][j] * determinant([[x for k, x in enumerate(row) if k != j] for row in g[1:]])
    return s


HISTORY = 4     # history units per function


def units():
    out = []
    for n, m, tier in ((1, 1, 'quick'), (2, 1, 'quick'), (3, 1, 'quick'), (2, 2, 'quick'), (3, 2, 'quick'), (5, 1, 'quick'), (4, 2, 'quick')):
        out.append(Unit('%d vectors of dimension %d' % (m, n), gram, dict(v=Vec(n, m)), dict(n=n, m=m), tier=tier,
                        bounds='every %d independent real vectors of dimension %d' % (m, n)))
    for cols in (((1., 0., 0.), (0., 1., 0.)), ((1., 1., 0.), (0., 1., 1.)), ((1., 2., -1.), (2., 0., 3.))):
        for k in (1, 2):
            out.append(Unit('3 vectors of dimension 3: vector %d with %s %s' % ((k,) + cols), part, dict(x=Vec(3, 1)),
                            dict(cols=cols, k=k, n=3), bounds='every vector independent of the two others'))
    four = ((1., 2., 0., 0.), (0., 1., 1., 0.), (3., 0., 1., 1.))
    for cols, k in ((four, 3), (four[:2] + ((0., 1., 0., 2.),), 3)):
        out.append(Unit('4 vectors of dimension 4: vector %d with %s' % (k, cols), part, dict(x=Vec(4, 1)), dict(cols=cols, k=k, n=4),
                        bounds='every vector independent of the others'))
    out.append(Unit('4 vectors of dimension 5: last', part, dict(x=Vec(5, 1)), dict(cols=tuple(c + (1.,) for c in four), k=3, n=5),
                    bounds='every vector independent of the others'))
    five = ((1., 0., 0., 0., 1.), (1., 1., 0., 0., 0.), (0., 1., 0., 2., 0.), (0., 0., 1., 0., -1.))
    out.append(Unit('5 vectors of dimension 5: last', part, dict(x=Vec(5, 1)), dict(cols=five, k=4, n=5),
                    bounds='every vector independent of the others'))
    return out
