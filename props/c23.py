"""C23 selecting the lowest eigenpairs"""
import davidson as dav
from common import *
from harness import Unit, Real, Choice, Seq, Vec, Int


def select(vals, nb, array, wide):
    n = len(vals)
    before = [x for x in vals]
    values = np.array(vals) if array else vals
    # column j carries its own number
    vects = np.array([[10. * i + j for j in range(n)] for i in range(n + wide)])
    got, chosen = dav.get_lowests_eig(values, vects, nb)
    m = min(nb, n)
    check(len(got) == m, 'number of values')
    check(chosen.shape == (n + wide, m), 'number of vectors')
    cols = [chosen[0, k] for k in range(m)]
    for k in range(m):
        for i in range(n + wide):
            check(chosen[i, k] == 10. * i + cols[k], 'a column is not one of the vectors')
        for j in range(k):
            check(cols[j] != cols[k], 'a vector is selected twice')
        if k > 0:
            check(got[k - 1] <= got[k], 'values are not in increasing order')
        for j in range(n):
            if cols[k] == j:
                check(close(before[j], got[k]), 'vector of another value')
    for j in range(n):
        if j not in cols:
            check(got[m - 1] <= before[j], 'a smaller value is left out')
        check(close(values[j], before[j]), 'values changed')
        for i in range(n + wide):
            check(vects[i, j] == 10. * i + j, 'vectors changed')
    return False


def units():
    out = []
    for n, nb, tier in ((1, 1, 'quick'), (2, 1, 'quick'), (2, 2, 'quick'), (3, 1, 'quick'), (3, 2, 'quick'), (3, 3, 'quick'),
                        (3, 5, 'quick'), (4, 2, 'thorough'), (4, 3, 'thorough')):
        for array in (False, True):
            out.append(Unit('%d of %d values%s' % (nb, n, ' in an array' if array else ''), select, dict(vals=Seq(*[Real() for _ in range(n)])),
                            dict(nb=nb, array=array, wide=1 if nb == 1 else 0), tier=tier, bounds='every list of %d real values' % n))
    for n, vals, tier in ((4, (-1.5, 0., 1., 2.), 'quick'), (5, (-1.5, 0., 1., 2.), 'quick'), (6, (-1., 0., 2.), 'quick'), (7, (-1., 0., 2.), 'thorough')):
        for nb in (1, 2, n - 1, n, n + 1):
          for array in (False, True):
            out.append(Unit('%d of %d values with repetitions%s' % (nb, n, ' in an array' if array else ''), select,
                            dict(vals=Seq(*[Choice(*vals) for _ in range(n)])), dict(array=array, wide=2, nb=nb), tier=tier,
                            bounds='every list of %d values among %s' % (n, list(vals))))
    return out
