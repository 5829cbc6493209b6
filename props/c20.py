"""C20 occupation probabilities"""
from common import *
from harness import Unit, Vec, Bool, Subset, Choice


def weights(vect, occs, site, spin):
    return sum([vect[k, 0] * vect[k, 0] for k in range(len(occs)) if occs[k][site] == spin])


def distribution(vect, rev, sub, kind, nbh, nbv, side, nholes, nbeta):
    conf, pos, nb = lattice(kind, nbh, nbv, side, nholes, nbeta, sub)
    basis = bC.construct_basis(conf)
    occs = [occupation(conf, d) for d in basis.determinants]
    n, d = conf.nsites, len(basis.determinants)
    before = np.copy(vect)
    w = sum([vect[k, 0] * vect[k, 0] for k in range(d)])
    assume(nonzero(w))
    p = bC.get_spins_probabilitites_lattice(basis, vect, rev)
    check(sorted(list(p.keys())) == [-1, 0, 1], 'one list per kind of particle')
    for spin in (-1, 0, 1):
        check(len(p[spin]) == n, 'one probability per site')
        single = bC.get_probability_spin_lattice(basis, vect, spin, rev)
        check(len(single) == n, 'one probability per site')
        s = -spin if rev else spin
        for site in range(n):
            check(close(p[spin][site] * w, weights(vect, occs, site, s)), 'probability is not the weight')
            check(close(single[site], p[spin][site]), 'single list differs')
    for site in range(n):
        check(close(p[-1][site] + p[0][site] + p[1][site], 1), 'probabilities of a site do not add up to one')
    up, down = (nbeta, n - nholes - nbeta) if rev else (n - nholes - nbeta, nbeta)
    check(close(sum(p[0]), nholes), 'holes over the lattice')
    check(close(sum(p[-1]), down), 'downs over the lattice')
    check(close(sum(p[1]), up), 'ups over the lattice')
    for k in range(d):
        check(close(vect[k, 0], before[k, 0]), 'state changed')
    return False


def grid(vect, spin, kind, nbh, nbv, side, nholes, nbeta):
    conf, pos, nb = lattice(kind, nbh, nbv, side, nholes, nbeta)
    basis = bC.construct_basis(conf)
    occs = [occupation(conf, d) for d in basis.determinants]
    w = sum([vect[k, 0] * vect[k, 0] for k in range(len(occs))])
    assume(nonzero(w))
    m = bC.get_probability_spin_rectangular_lattice(basis, vect, spin)
    rows, cols = nbv * side, nbh * side
    check(m.shape == (rows, cols), 'shape of the map')
    for site in range(conf.nsites):
        x, y = pos[site]
        check(close(m[rows - 1 - y, x] * w, weights(vect, occs, site, spin)), 'map differs from the weights')
    return False


def refused(spin, kind, nbh, nbv, side, nholes, nbeta):
    conf, pos, nb = lattice(kind, nbh, nbv, side, nholes, nbeta)
    basis = bC.construct_basis(conf)
    vect = np.ones((len(basis.determinants), 1))
    for f in (bC.get_probability_spin_lattice, bC.get_probability_spin_rectangular_lattice):
        ok = False
        try:
            f(basis, vect, spin)
        except ValueError:
            ok = True
        check(ok, 'an unknown kind of particle is refused')
    return spin


def units():
    out = []
    rows = [('quick', 'periodic', 2, 1, 1, 0, 1, ''), ('quick', 'periodic', 3, 1, 1, 1, 1, ''),
            ('quick', 'periodic', 2, 2, 1, 1, 1, ''), ('quick', 'periodic', 2, 2, 1, 0, 2, ''),
            ('quick', 'periodic', 3, 2, 1, 4, 1, ''), ('quick', 'periodic', 1, 1, 2, 2, 1, 'list'),
            ('quick', 'peripheral', 1, 1, 1, 2, 2, ''), ('quick', 'clusters', 1, 2, 1, 1, 2, ''),
            ('quick', 'periodic', 1, 3, 1, 3, 0, ''), ('quick', 'clusters', 1, 2, 1, 0, 1, 'list'),
            ('thorough', 'periodic', 3, 2, 1, 2, 1, ''), ('thorough', 'periodic', 5, 1, 1, 2, 2, ''),
            ('thorough', 'peripheral', 1, 1, 1, 1, 2, 'list')]
    for tier, lab, k, n, nd, res in shapes(rows):
        ins = dict(vect=Vec(nd, 1))
        if res:
            ins['sub'] = Subset(n, nonempty=True)
        else:
            k['sub'] = None
        for rev in (False, True):
            out.append(Unit('distribution' + lab + (' reversed' if rev else ''), distribution, ins, dict(k, rev=rev), tier=tier,
                            bounds='every non-zero state of %d determinants' % nd))
    rows = [('quick', 'periodic', 2, 1, 1, 0, 1, ''), ('quick', 'periodic', 1, 2, 1, 1, 1, ''),
            ('quick', 'periodic', 2, 2, 1, 1, 1, ''), ('quick', 'periodic', 1, 3, 1, 1, 1, ''),
            ('quick', 'periodic', 3, 2, 1, 4, 1, ''), ('quick', 'periodic', 2, 3, 1, 5, 0, ''),
            ('quick', 'periodic', 1, 1, 2, 2, 1, ''), ('quick', 'periodic', 4, 1, 1, 2, 1, ''),
            ('quick', 'periodic', 1, 2, 2, 7, 1, ''), ('quick', 'periodic', 2, 1, 2, 7, 0, ''),
            ('thorough', 'periodic', 3, 2, 1, 2, 1, ''), ('thorough', 'periodic', 3, 3, 1, 8, 1, '')]
    for tier, lab, k, n, nd, res in shapes(rows):
        for spin in (-1, 0, 1):
          out.append(Unit('map' + lab + ' %d' % spin, grid, dict(vect=Vec(nd, 1)), dict(k, spin=spin), tier=tier,
                        bounds='every non-zero state of %d determinants' % nd))
    k = dict(kind='periodic', nbh=2, nbv=2, side=1, nholes=1, nbeta=1)
    out.append(Unit('refused', refused, dict(spin=Choice(-3, -2, 2, 3, 1 / 2, -1 / 2)), k))
    return out
