"""C01 determinant numbering"""
from common import *
from harness import Unit, Det, Int, Perm, Seq


def number_then_rebuild(det, n, h, b):
    conf = bC.Configuration(np.zeros((n, n)), h, b)
    occ = occupation(conf, det)
    ind = bC.get_index_in_basis(conf, det)
    check(0 <= ind and ind < choose(n, h) * choose(n - h, b), 'number out of range')
    check(ind == rank(conf, occ), 'number is not the rank')
    back = bC.get_hash_basis(h, n - h - b, b, ind)
    check(back == from_occ(occ), 'rebuilding the determinant from its number')
    return ind


def number(det, n, h, b):
    """lattices whose bases are too large to be rebuilt from the number"""
    conf = bC.Configuration(np.zeros((n, n)), h, b)
    check(bC.get_index_in_basis(conf, det) == rank(conf, occupation(conf, det)), 'number is not the rank')
    return False


def rebuild_then_number(ind, n, h, b):
    conf = bC.Configuration(np.zeros((n, n)), h, b)
    det = bC.get_hash_basis(h, n - h - b, b, ind)
    check(sorted(det) == list(range(n)), 'not a placement of the sites')
    check(bC.get_index_in_basis(conf, det) == ind, 'numbering the rebuilt determinant')
    check(rank(conf, occupation(conf, det)) == ind, 'the number is not the rank')
    return det


def listing_order(perm, n, h, b):
    conf = bC.Configuration(np.zeros((n, n)), h, b)
    before = list(perm)
    occ = occupation(conf, perm)
    ind = bC.get_index_in_basis(conf, perm)
    check(ind == rank(conf, occ), 'number depends on the listing order')
    check(perm == before, 'input determinant modified')
    return ind


def units():
    out = []
    for tier, n, h, b in [
            ('quick', 1, 0, 0), ('quick', 1, 1, 0), ('quick', 2, 1, 0), ('quick', 3, 1, 1), ('quick', 4, 2, 1),
            ('quick', 4, 0, 2), ('quick', 4, 4, 0), ('quick', 5, 2, 3), ('quick', 5, 0, 0), ('quick', 6, 2, 2),
            ('quick', 7, 1, 3), ('quick', 8, 5, 2), ('quick', 8, 3, 0), ('quick', 9, 1, 4), ('quick', 10, 2, 1), ('quick', 9, 3, 0),
            ('thorough', 7, 2, 2), ('thorough', 7, 3, 2), ('thorough', 8, 2, 2), ('thorough', 8, 1, 4),
            ('thorough', 8, 0, 4), ('thorough', 9, 7, 1), ('thorough', 12, 1, 1), ('thorough', 9, 2, 3),
            ('thorough', 16, 1, 1), ('thorough', 10, 8, 1), ('thorough', 12, 10, 2), ('thorough', 10, 2, 2), ('thorough', 12, 1, 2), ('thorough', 10, 1, 3), ('thorough', 10, 3, 2)]:
        k = dict(n=n, h=h, b=b)
        dim = choose(n, h) * choose(n - h, b)
        lab = ' n=%d holes=%d down=%d' % (n, h, b)
        bd = '%d sites, %d holes, %d down, all %d determinants' % (n, h, b, dim)
        out.append(Unit('number_then_rebuild' + lab, number_then_rebuild, dict(det=Det(n, h, b)), k, bounds=bd,
                        tier=tier))
        out.append(Unit('rebuild_then_number' + lab, rebuild_then_number, dict(ind=Int(0, dim - 1)), k, bounds=bd,
                        tier=tier))
    for tier, n, h, b in [('quick', 10, 3, 2), ('quick', 12, 2, 2), ('quick', 16, 2, 1), ('thorough', 10, 2, 3), ('thorough', 12, 3, 3),
                          ('thorough', 16, 2, 2), ('thorough', 12, 2, 5), ('thorough', 20, 1, 2)]:
        out.append(Unit('number n=%d holes=%d down=%d' % (n, h, b), number, dict(det=Det(n, h, b)), dict(n=n, h=h, b=b), tier=tier,
                        bounds='%d sites, %d holes, %d down, all determinants' % (n, h, b)))
    for tier, n, h, b in [('quick', 3, 1, 1), ('quick', 4, 2, 1), ('quick', 5, 2, 2), ('thorough', 5, 0, 3),
                          ('thorough', 6, 2, 2), ('thorough', 6, 3, 3), ('thorough', 6, 1, 3)]:
        out.append(Unit('listing_order n=%d holes=%d down=%d' % (n, h, b), listing_order, dict(perm=Perm(n)),
                        dict(n=n, h=h, b=b), bounds='every listing of %d sites' % n, tier=tier))
    return out
