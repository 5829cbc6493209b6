"""C15 rotations"""
import hamiltonianConstruction as hC
from common import *
from harness import Unit, Real, Bool, Int, Det


def turned(s, r, L):
    """site s of the L x L block after r clockwise quarter turns (rows numbered upwards)"""
    x, y = s % L, s // L
    for _ in range(r % 4):
        x, y = y, L - 1 - x
    return x + L * y


def geometric(det, r, nbh, side, nholes, nbeta):
    L = nbh * side
    conf, pos, nb = lattice('periodic', nbh, nbh, side, nholes, nbeta)
    before = det[:]
    out = bC.rotate_determinant(r, conf, det)
    check(det == before, 'input changed')
    occ = occupation(conf, det)
    n = conf.nsites
    want = [None] * n
    for s in range(n):
        want[s] = (occ[turned(s, 0, L)], occ[turned(s, 3, L)], occ[turned(s, 2, L)], occ[turned(s, 1, L)])[r % 4]
    check(out == from_occ(want), 'not the rotated determinant')
    return occupation(conf, out)


def composed(det, r, q, nbh, side, nholes, nbeta):
    conf, pos, nb = lattice('periodic', nbh, nbh, side, nholes, nbeta)
    one = bC.rotate_determinant(q, conf, bC.rotate_determinant(r, conf, det))
    check(one == bC.rotate_determinant(r + q, conf, det), 'rotations do not compose')
    check(bC.rotate_determinant(4, conf, det) == det and bC.rotate_determinant(0, conf, det) == det, 'full turn')
    check(bC.rotate_determinant(-r, conf, bC.rotate_determinant(r, conf, det)) == det, 'back and forth')


def invariant(nbh, side, nholes, nbeta, **kw):
    c = {x: kw[x] for x in COUPLINGS}
    s = {x: kw[x] for x in TERMS}
    conf, pos, nb = lattice('periodic', nbh, nbh, side, nholes, nbeta)
    basis = bC.construct_basis(conf)
    h = full(conf, basis, c, s)
    d = len(basis.determinants)
    for r in (1, 2, 3):
        im = [bC.get_index_in_basis(conf, bC.rotate_determinant(r, conf, x)) for x in basis.determinants]
        check(sorted(im) == list(range(d)), 'rotation is not one to one')
        for i in range(d):
            for j in range(d):
                check(close(h[im[i], im[j]], h[i, j]), 'not invariant')
    return False


def units():
    out = []
    for tier, nbh, side, nh, nb in [
            ('quick', 2, 1, 1, 1), ('quick', 2, 1, 2, 1), ('quick', 1, 2, 0, 3), ('quick', 3, 1, 1, 4),
            ('quick', 1, 3, 2, 3), ('quick', 1, 3, 7, 1), ('quick', 1, 1, 1, 0), ('thorough', 3, 1, 3, 3),
            ('thorough', 4, 1, 2, 2), ('thorough', 2, 2, 1, 3), ('quick', 4, 1, 1, 1), ('quick', 2, 2, 1, 1), ('quick', 1, 4, 0, 1),
            ('quick', 2, 2, 0, 2), ('thorough', 5, 1, 1, 1), ('thorough', 3, 2, 0, 1), ('thorough', 2, 3, 1, 0)]:
        n = (nbh * side) ** 2
        k = dict(nbh=nbh, side=side, nholes=nh, nbeta=nb)
        lab = ' %dx%d side %d, %d holes %d down' % (nbh, nbh, side, nh, nb)
        nd = choose(n, nh) * choose(n - nh, nb)
        bd = 'all determinants of %d sites, turns -5..9' % n
        out.append(Unit('geometric' + lab, geometric, dict(det=Det(n, nh, nb), r=Int(-5, 9)), dict(k), tier=tier, bounds=bd))
        if nd <= 700:
            out.append(Unit('composed' + lab, composed, dict(det=Det(n, nh, nb), r=Int(-4, 4), q=Int(-4, 4)), dict(k),
                            tier=tier, bounds='all determinants of %d sites, turns -4..4' % n))
    ins = dict({c: Real() for c in COUPLINGS}, **{s: Bool() for s in TERMS})
    for tier, nbh, side, nh, nb in [('quick', 2, 1, 1, 1), ('quick', 1, 2, 2, 1), ('quick', 2, 1, 0, 2), ('quick', 3, 1, 8, 1),
                                    ('thorough', 3, 1, 7, 1), ('thorough', 1, 3, 1, 1), ('thorough', 3, 1, 0, 2)]:
        n = (nbh * side) ** 2
        k = dict(nbh=nbh, side=side, nholes=nh, nbeta=nb)
        nd = choose(n, nh) * choose(n - nh, nb)
        out.append(Unit('invariant %dx%d side %d, %d holes %d down' % (nbh, nbh, side, nh, nb), invariant, dict(ins), k,
                        tier=tier, bounds='every coupling and switch, the whole %d x %d matrix' % (nd, nd)))
    return out
