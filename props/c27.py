"""C27 joining two lattices"""
from common import *
from harness import Unit, Det, Subset


def conf_of(n, nholes, nbeta, a):
    m = np.zeros((n, n))
    for i in range(n - 1):
        m[i, i + 1] = 1
        m[i + 1, i] = 1
    return bC.Configuration(m, nholes, nbeta, [] if a is None else a, 'periodic', n, 1, 1)


def join(det1, det2, a, b, one, two):
    c1, c2 = conf_of(*one, a), conf_of(*two, b)
    b1, b2 = det1[:], det2[:]
    got = bC.extend_determinant(c1, c2, det1, det2)
    check(det1 == b1 and det2 == b2, 'a determinant changed')
    n1, n2 = one[0], two[0]
    h, b_ = one[1] + two[1], one[2] + two[2]
    check(len(got) == n1 + n2, 'number of particles')
    want = occupation(c1, det1) + occupation(c2, det2)
    check(sorted(got[:h]) == [s for s in range(n1 + n2) if want[s] == 0], 'holes')
    check(sorted(got[h:h + b_]) == [s for s in range(n1 + n2) if want[s] == -1], 'downs')
    check(sorted(got[h + b_:]) == [s for s in range(n1 + n2) if want[s] == 1], 'ups')
    return False


def number(det1, det2, one, two):
    """the joined determinant has its place in the basis of the joined lattice"""
    c1, c2 = conf_of(*one, None), conf_of(*two, None)
    n = one[0] + two[0]
    c = conf_of(n, one[1] + two[1], one[2] + two[2], None)
    got = bC.extend_determinant(c1, c2, det1, det2)
    occ = occupation(c1, det1) + occupation(c2, det2)
    check(bC.get_index_in_basis(c, got) == rank(c, occ), 'number of the joined determinant')
    check(bC.get_displayable_determinant(c, got) == bC.get_displayable_determinant(c1, det1)
          + bC.get_displayable_determinant(c2, det2), 'displayed sites')
    return False


def units():
    out = []
    sizes = [(n, h, b) for n in (1, 2, 3) for h in range(n + 1) for b in range(n - h + 1)]
    for tier, one, two, res in [('quick', p, q, '') for p in sizes for q in sizes if p[0] != q[0] or p == (2, 0, 1)] + [
            ('quick', (4, 1, 2), (4, 1, 1), ''), ('quick', (5, 2, 1), (4, 1, 2), ''), ('quick', (6, 2, 2), (5, 1, 2), ''),
            ('quick', (2, 1, 0), (6, 2, 2), ''), ('quick', (4, 0, 2), (8, 0, 4), ''), ('quick', (4, 4, 0), (3, 0, 3), ''),
            ('quick', (1, 1, 0), (1, 0, 1), ''), ('quick', (4, 2, 1), (4, 2, 1), ''), ('quick', (3, 0, 0), (4, 0, 0), ''),
            ('quick', (3, 1, 1), (3, 1, 1), 'first'), ('quick', (3, 1, 1), (3, 1, 1), 'second'),
            ('quick', (3, 1, 1), (4, 2, 1), 'both'), ('quick', (3, 1, 1), (3, 0, 1), 'pairs'),
            ('thorough', (6, 2, 2), (6, 2, 2), ''), ('thorough', (7, 2, 2), (5, 1, 2), ''),
            ('thorough', (4, 1, 2), (4, 2, 1), 'both'), ('thorough', (4, 1, 2), (8, 0, 4), 'first')]:
        n1, n2 = one[0], two[0]
        a = b = None
        ins = dict(det1=Det(*one), det2=Det(*two))
        k = dict(one=one, two=two, a=None, b=None)
        if res in ('first', 'both'):
            ins['a'] = Subset(n1, nonempty=True)
            del k['a']
        if res in ('second', 'both'):
            ins['b'] = Subset(n2, nonempty=True)
            del k['b']
        if res == 'pairs':
            k.update(a=([0], [1, 2]), b=([2, 1], [0]))
        lab = ' %s and %s %s' % (one, two, res)
        out.append(Unit('join' + lab, join, ins, k, tier=tier,
                        bounds='all pairs of determinants of %d and %d sites%s' % (n1, n2, ', all restrictions' if res in ('first', 'second', 'both') else '')))
        if not res:
            out.append(Unit('number' + lab, number, dict(det1=Det(*one), det2=Det(*two)), dict(one=one, two=two), tier=tier if n1 + n2 < 10 else 'thorough',
                            bounds='all pairs of determinants of %d and %d sites' % (n1, n2)))
    return out
