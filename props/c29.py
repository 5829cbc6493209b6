"""C29 restriction of the sites"""
import hamiltonianConstruction as hC
from common import *
from harness import Unit, Det, Subset, Real


def confined(conf, det, image, A, B):
    """image differs from det only inside the restriction, holes leave A and enter B"""
    n, h, b = conf.nsites, conf.nholes, conf.nbeta
    check(sorted(image) == list(range(n)), 'not a determinant of the lattice')
    check(image == from_occ(occupation(conf, image)), 'image is not well ordered')
    o1, o2 = occupation(conf, det), occupation(conf, image)
    check(o1 != o2, 'image equal to the start')
    for s in range(n):
        if s not in A and s not in B:
            check(o1[s] == o2[s], 'a site outside the restriction changed')
        if o1[s] == 0 and o2[s] != 0:
            check(s in A, 'a hole left a forbidden site')
        if o1[s] != 0 and o2[s] == 0:
            check(s in B, 'a hole entered a forbidden site')


def images(det, a, b, term, kind, nbh, nbv, side, nholes, nbeta):
    conf, pos, nb = lattice(kind, nbh, nbv, side, nholes, nbeta, restriction(a, b))
    A, B = a, a if b is None else b
    before = det[:]
    x = itr.Interactions(1, 0, 0, 0, 0, 0, 0, 0, 0, 0)
    if term == 'hop':
        lists = [itr.compute_hopping_integral(conf, x, det)]
    elif term == 'next hop':
        lists = itr.compute_next_hopping_integral(conf, x, det)
    elif term == 'flip':
        lists = itr.compute_spin_flip(conf, x, det)
    else:
        par, per = itr.compute_singlet_displacement(conf, x, det)
        lists = par + per
    check(det == before, 'starting determinant changed')
    occ = occupation(conf, det)
    for some in lists:
        for im in some:
            confined(conf, det, im, A, B)
            if term == 'flip':
                now = occupation(conf, im)
                i, j = [s for s in range(conf.nsites) if now[s] != occ[s]]
                check(j in nb[i] and occ[i] * occ[j] == -1, 'not a flip of a bond')
                check((i in A and j in B) or (j in A and i in B), 'flip on a forbidden bond')
    return False


def groups(det, a, b, kind, nbh, nbv, side, nholes, nbeta):
    """the sites of each kind of particle, confined to the restriction"""
    conf, pos, nb = lattice(kind, nbh, nbv, side, nholes, nbeta, restriction(a, b))
    sides = (a, a if b is None else b)
    occ = occupation(conf, det)
    for target in (0, 1):
        for spin in (-1, 0, 1):
            check(sorted(bC.get_indexes_of(conf, det, spin, target)) ==
                  [s for s in range(conf.nsites) if occ[s] == spin and s in sides[target]], 'sites of a particle')
    for spin in (-1, 0, 1):
        check(sorted(bC.get_indexes_of(conf, det, spin)) ==
              [s for s in range(conf.nsites) if occ[s] == spin and s in sides[0]], 'starting sites of a particle')
    return False


def argument(det, a, b, kind, nbh, nbv, side, nholes, nbeta):
    """the restriction may be given to the Hamiltonian construction instead of the configuration"""
    conf, pos, nb = lattice(kind, nbh, nbv, side, nholes, nbeta)
    other, pos2, nb2 = lattice(kind, nbh, nbv, side, nholes, nbeta, restriction(a, b))
    c = itr.Interactions(1, 2, 3, 5, 7, 11, 13, 17, 19, 23)
    s = switches(bt=True, bz=True, bij=True, bSD=True, btN=True, bV=True)
    got = hC.build_hamiltonian(conf, c, bC.construct_basis(conf), s, restriction(a, b)).toarray()
    want = hC.build_hamiltonian(other, c, bC.construct_basis(other), s).toarray()
    i = rank(conf, occupation(conf, det))
    for j in range(got.shape[1]):
        check(close(got[i, j], want[i, j]), 'restriction given as an argument')
    check(conf.sites_restriction == (list(range(conf.nsites)), list(range(conf.nsites))), 'configuration changed')
    return False


def confined_row(det, a, b, kind, nbh, nbv, side, nholes, nbeta):
    """whole row of the Hamiltonian, every term on"""
    conf, pos, nb = lattice(kind, nbh, nbv, side, nholes, nbeta, restriction(a, b))
    A, B = a, a if b is None else b
    c = itr.Interactions(1, 2, 3, 5, 7, 11, 13, 17, 19, 23)
    s = switches(bt=True, bz=True, bij=True, bSD=True, btN=True, bV=True)
    basis = bC.construct_basis(conf)
    h = hC.build_hamiltonian(conf, c, basis, s).toarray()
    i = rank(conf, occupation(conf, det))
    occ = occupation(conf, det)
    for j, d in enumerate(basis.determinants):
        now = occupation(conf, d)
        for x in range(conf.nsites):
            if x not in A and x not in B and occ[x] != now[x]:
                check(close(h[i, j], 0), 'element changes a site outside the restriction')
            if x not in A and occ[x] == 0 and now[x] != 0:
                check(close(h[i, j], 0), 'element takes a hole from a forbidden site')
            if x not in B and occ[x] != 0 and now[x] == 0:
                check(close(h[i, j], 0), 'element brings a hole to a forbidden site')
    return False


def units():
    out = []
    rows = [('quick', 'periodic', 2, 2, 1, 1, 1, 'pair'), ('quick', 'periodic', 2, 2, 1, 2, 1, 'pair'),
            ('quick', 'periodic', 2, 3, 1, 2, 2, 'list'), ('quick', 'periodic', 1, 5, 1, 2, 1, 'list'),
            ('quick', 'clusters', 1, 2, 1, 1, 1, 'pair'), ('quick', 'peripheral', 1, 1, 1, 1, 2, 'list'),
            ('quick', 'periodic', 3, 1, 1, 1, 1, 'pair'),
            ('thorough', 'periodic', 2, 3, 1, 1, 2, 'list'), ('thorough', 'clusters', 1, 3, 1, 2, 2, 'list'),
            ('thorough', 'periodic', 5, 1, 1, 2, 1, 'pair'), ('thorough', 'peripheral', 1, 1, 1, 2, 1, 'pair'),
            ('thorough', 'periodic', 1, 1, 3, 2, 3, 'list')]
    for tier, lab, k, n, nd, res in shapes(rows):
        ins = dict(det=Det(n, k['nholes'], k['nbeta']), a=Subset(n, nonempty=True))
        kk = dict(k)
        if res == 'pair':
            ins['b'] = Subset(n)
        else:
            kk['b'] = None
        bd = 'every determinant of %d sites, every restriction' % n
        for term in ('hop', 'next hop', 'flip', 'singlet'):
            out.append(Unit(term + lab, images, dict(ins), dict(kk, term=term), tier=tier, bounds=bd))
        out.append(Unit('groups' + lab, groups, dict(ins), dict(kk), tier=tier, bounds=bd))
        if n < 5 and nd <= 12:
            out.append(Unit('argument' + lab, argument, dict(ins), dict(kk), tier=tier, bounds=bd))
            out.append(Unit('row' + lab, confined_row, dict(ins), dict(kk), tier=tier, bounds=bd))
    return out
