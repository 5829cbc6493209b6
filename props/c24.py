"""C24 a converged eigensolver result is an orthonormal eigenpair set within tolerance.
The dense factorisations are replaced by their contracts: any orthonormal basis for the QR factorisation, any increasing
list of values and any orthonormal eigenbasis for the dense symmetric problem."""
import davidson as dav
import scipy.sparse as sp
from common import *
from harness import Unit, Real, Vec, Seq, Bool


class Script:
    """what the dense factorisations return, in order"""
    pass


S = Script()


def frame(c, d):
    """a rotation of dimension d: product of plane rotations of cosines c (sines from 0 to 1)"""
    m = [[1 if i == j else 0 for j in range(d)] for i in range(d)]
    k = 0
    for i in range(d):
        for j in range(i + 1, d):
            co = c[k]
            si = np.sqrt(1 - co * co)
            k = k + 1
            for r in m:
                r[i], r[j] = co * r[i] + si * r[j], co * r[j] - si * r[i]
    return m


def angles(d):
    return d * (d - 1) // 2


def identity(d):
    return [[1 if i == j else 0 for j in range(d)] for i in range(d)]


def qr(v):
    q = S.frames[min(S.nqr, len(S.frames) - 1)]
    S.nqr = S.nqr + 1
    d, m = v.shape
    k = min(d, m)
    if len(q) != d:
        q = identity(d)
    return np.array([[q[i][j] for j in range(k)] for i in range(d)]), np.zeros((k, m))


def eigh(m):
    w, y = S.pairs[min(S.neigh, len(S.pairs) - 1)]
    S.neigh = S.neigh + 1
    k = m.shape[0]
    if k == 1:
        return np.array([m[0, 0]]), np.array([[1.0]])
    if len(w) < k or len(y) < k:
        return np.array([m[i, i] for i in range(k)]), np.array(identity(k))
    return np.array([w[i] for i in range(k)]), np.array([[y[i][j] for j in range(k)] for i in range(k)])


def product(a, b):
    return [[sum([a[i][k] * b[k][j] for k in range(len(b))]) for j in range(len(b[0]))] for i in range(len(a))]


def transposed(a):
    return [[a[i][j] for i in range(len(a))] for j in range(len(a[0]))]


def matrix(q, y, w, rest, d, k):
    """symmetric matrix of dimension d whose projection on the first k columns of q is y w y^T; rest: the other elements"""
    m = [[0] * d for _ in range(d)]
    r = 0
    for i in range(d):
        for j in range(i, d):
            if j < k:
                m[i][j] = sum([y[i][l] * w[l] * y[j][l] for l in range(k)])
            else:
                m[i][j] = rest[r]
                r = r + 1
            m[j][i] = m[i][j]
    return product(q, product(m, transposed(q)))


def residual(a, x, v, d):
    """squared norm"""
    s = 0
    for i in range(d):
        t = sum([a[i][j] * x[j] for j in range(d)]) - v * x[i]
        s = s + t * t
    return s


def orthonormal(x, d, n):
    check(x.shape == (d, n), 'shape of the vectors')
    for j in range(n):
        check(close(sum([x[i, j] * x[i, j] for i in range(d)]), 1), 'vector is not normalised')
        for k in range(j):
            check(close(sum([x[i, j] * x[i, k] for i in range(d)]), 0), 'vectors are not orthogonal')


def bounded(c):
    for x in c:
        assume(-1 <= x)
        assume(x <= 1)


def one(c, y, w, rest, tol, guess, d, nb, given):
    """convergence in the first iteration is only reported for residuals within the tolerance"""
    bounded(c)
    bounded(y)
    n = min(d, nb)
    for i in range(n - 1):
        assume(w[i] <= w[i + 1])
    q, yy = frame(c, d), frame(y, n)
    a = matrix(q, yy, w, rest, d, n)
    S.frames, S.pairs, S.nqr, S.neigh = [q, q], [(w, yy), ([0] * (2 * d), frame([1] * angles(d), d))], 0, 0
    m = sp.csr_matrix(np.array(a))
    g = np.array([[guess[i, j] for j in range(nb)] for i in range(d)]) if given else None
    r = dav.modified_davidson_algorithm(m, nb, g, 2, tol)
    check(len(r.eigvals) == n, 'number of values')
    orthonormal(r.eigvects, d, n)
    if S.neigh == 1:
        reach(True, 'convergence is reported')
        for k in range(n):
            check(close(r.eigvals[k], w[k]), 'value')
            res = residual(a, [r.eigvects[i, k] for i in range(d)], r.eigvals[k], d)
            check(np.sqrt(res) <= tol, 'residual above the tolerance')
        for k in range(n - 1):
            check(r.eigvals[k] <= r.eigvals[k + 1], 'values are not in increasing order')
    b = m.toarray()
    for i in range(d):
        for j in range(d):
            check(close(b[i, j], a[i][j]), 'matrix changed')
        if given:
            for j in range(nb):
                check(g[i, j] == guess[i, j], 'guess changed')
    return False


def later(c, c2, y, y2, w, w2, rest, tol, guess, d, nb, dim_max):
    """convergence in the second iteration, whatever happened in the first one"""
    bounded(c)
    bounded(y)
    bounded(c2)
    bounded(y2)
    n = min(d, 2 * nb)
    for i in range(n - 1):
        assume(w2[i] <= w2[i + 1])
    for i in range(nb - 1):
        assume(w[i] <= w[i + 1])
    q, q2, y, y2 = frame(c, d), frame(c2, d), frame(y, nb), frame(y2, n)
    a = matrix(q2, y2, w2, rest, d, n)
    S.frames, S.pairs, S.nqr, S.neigh = [q, q2, q2], [(w, y), (w2, y2), ([0] * (3 * d), frame([1] * angles(d), d))], 0, 0
    m = sp.csr_matrix(np.array(a))
    r = dav.modified_davidson_algorithm(m, nb, guess, 3, tol, dim_max)
    check(len(r.eigvals) == nb, 'number of values')
    if S.neigh == 2:
        reach(True, 'convergence is reported')
        orthonormal(r.eigvects, d, nb)
        for k in range(nb):
            check(close(r.eigvals[k], w2[k]), 'value')
            res = residual(a, [r.eigvects[i, k] for i in range(d)], r.eigvals[k], d)
            check(np.sqrt(res) <= tol, 'residual above the tolerance')
    return False


def limited(c, y, w, rest, tol, d, nb, dim_max, given):
    """more states than the search space holds are asked for"""
    bounded(c)
    bounded(y)
    n = min(d, nb, dim_max) if dim_max else min(d, nb)
    for i in range(n - 1):
        assume(w[i] <= w[i + 1])
    q, yy = frame(c, d), frame(y, n)
    a = matrix(q, yy, w, rest, d, n)
    S.frames, S.pairs, S.nqr, S.neigh = [q, q], [(w, yy), ([0] * (2 * d), frame([1] * angles(d), d))], 0, 0
    r = dav.modified_davidson_algorithm(sp.csr_matrix(np.array(a)), nb, np.ones((d, nb)) if given else None, 2, tol, dim_max)
    check(len(r.eigvals) == n, 'number of values')
    orthonormal(r.eigvects, d, n)
    if S.neigh == 1:
        for k in range(n):
            check(close(r.eigvals[k], w[k]), 'value')
            res = residual(a, [r.eigvects[i, k] for i in range(d)], r.eigvals[k], d)
            check(np.sqrt(res) <= tol, 'residual above the tolerance')
    return False


STUB = {'numpy.linalg:qr': qr, 'numpy.linalg:eigh': eigh}


HISTORY = 2     # history units per function


def units():
    out = []
    for d, nb, tier in ((1, 1, 'quick'), (2, 1, 'quick'), (2, 2, 'quick'), (3, 1, 'quick'), (3, 2, 'quick')):
        for given in (False, True):
            n = min(d, nb)
            ins = dict(c=Seq(*[Real()] * angles(d)), y=Seq(*[Real()] * angles(n)), w=Seq(*[Real()] * n),
                       rest=Seq(*[Real()] * ((d * (d + 1) - n * (n + 1)) // 2)), tol=Real(), guess=Vec(d, nb))
            out.append(Unit('%d states of dimension %d%s' % (nb, d, ' guess' * given), one, ins, dict(d=d, nb=nb, given=given), stubs=STUB,
                            tier=tier, bounds='every symmetric matrix of dimension %d, tolerance and guess' % d))
    for d, nb, dim_max, tier in ((2, 1, 0, 'quick'), (2, 1, 3, 'quick'), (2, 2, 0, 'thorough'), (2, 2, 4, 'thorough')):
        n = min(d, 2 * nb)
        ins = dict(c=Seq(*[Real()] * angles(d)), y=Seq(*[Real()] * angles(nb)), w=Seq(*[Real()] * nb),
                   c2=Seq(*[Real()] * angles(d)), y2=Seq(*[Real()] * angles(n)), w2=Seq(*[Real()] * n),
                   rest=Seq(*[Real()] * ((d * (d + 1) - n * (n + 1)) // 2)), tol=Real(), guess=Vec(d, nb))
        out.append(Unit('second iteration %d states of dimension %d limit %d' % (nb, d, dim_max), later, ins,
                        dict(d=d, nb=nb, dim_max=dim_max), stubs=STUB, tier=tier,
                        bounds='every symmetric matrix of dimension %d, tolerance and guess' % d))
    for d, nb, dim_max, first, tier in ((2, 2, 0, [1], 'quick'), (2, 2, 4, [.6], 'quick'), (3, 1, 0, [1, 1, 1], 'quick'),
                                        (3, 1, 4, [1, 1, 1], 'quick'), (3, 1, 4, [.6, .8, 1], 'thorough'),
                                        (3, 2, 0, [1, 1, 1], 'thorough')):
        n = min(d, 2 * nb)
        ins = dict(w=Seq(*[Real()] * nb), c2=Seq(*[Real()] * angles(d)), y2=Seq(*[Real()] * angles(n)), w2=Seq(*[Real()] * n),
                   rest=Seq(*[Real()] * ((d * (d + 1) - n * (n + 1)) // 2)), tol=Real())
        out.append(Unit('second iteration %d states of dimension %d limit %d from %s' % (nb, d, dim_max, first), later, ins,
                        dict(d=d, nb=nb, dim_max=dim_max, guess=np.eye(d)[:, :nb], c=first, y=[1] * angles(nb)), stubs=STUB,
                        tier=tier, bounds='every symmetric matrix of dimension %d, tolerance; one basis of the first iteration' % d))
    for d, nb, dim_max, given in ((1, 2, 0, False), (1, 3, 2, False), (2, 3, 0, True), (2, 3, 4, False), (2, 3, 4, True), (3, 3, 2, False),
                                  (3, 3, 1, False)):
        n = min(d, nb, dim_max) if dim_max else min(d, nb)
        ins = dict(c=Seq(*[Real()] * angles(d)), y=Seq(*[Real()] * angles(n)), w=Seq(*[Real()] * n),
                   rest=Seq(*[Real()] * ((d * (d + 1) - n * (n + 1)) // 2)), tol=Real())
        out.append(Unit('%d states of dimension %d limit %d%s' % (nb, d, dim_max, ' guess' * given), limited, ins,
                        dict(d=d, nb=nb, dim_max=dim_max, given=given), stubs=STUB,
                        bounds='every symmetric matrix of dimension %d and tolerance' % d))
    return out
