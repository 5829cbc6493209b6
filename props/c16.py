"""C16 spin reversal"""
import hamiltonianConstruction as hC
from common import *
from harness import Unit, Real, Bool, Det, Subset, Vec


def reversal(det, a, b, kind, nbh, nbv, side, nholes, nbeta):
    conf, pos, nb = lattice(kind, nbh, nbv, side, nholes, nbeta, restriction(a, b))
    n = conf.nsites
    before = det[:]
    conf2, det2 = bC.reverse_spins(conf, det)
    check(det == before, 'input changed')
    check((conf.nholes, conf.nbeta, conf.nalpha) == (nholes, nbeta, n - nholes - nbeta), 'configuration changed')
    check((conf2.nholes, conf2.nbeta, conf2.nalpha, conf2.nsites) == (nholes, n - nholes - nbeta, nbeta, n),
          'particle numbers of the reversed configuration')
    check((conf2.lattice_type, conf2.nbh, conf2.nbv, conf2.nblocs_side) == (
        conf.lattice_type, conf.nbh, conf.nbv, conf.nblocs_side), 'lattice of the reversed configuration')
    check(np.array_equal(conf2.bond_matrix, conf.bond_matrix), 'bonds of the reversed configuration')
    check(conf2.sites_restriction == conf.sites_restriction, 'restriction of the reversed configuration')
    occ = occupation(conf, det)
    check(len(det2) == n, 'sites lost')
    check(det2 == from_occ([-x for x in occ]), 'not the reversed determinant')
    conf3, det3 = bC.reverse_spins(conf2, det2)
    check(det3 == det and (conf3.nholes, conf3.nbeta, conf3.nalpha) == (conf.nholes, conf.nbeta, conf.nalpha),
          'not an involution')
    return occupation(conf2, det2)


def vector(vect, sub, kind, nbh, nbv, side, nholes, nbeta):
    conf, pos, nb = lattice(kind, nbh, nbv, side, nholes, nbeta, sub)
    basis = bC.construct_basis(conf)
    before = np.copy(vect)
    out = bC.reverse_spins_vect(basis, vect)
    flip = bC.reverse_spins_basis(basis)
    d = len(basis.determinants)
    check(out.shape == vect.shape, 'shape')
    check((flip.configuration.nbeta, flip.configuration.nalpha) == (conf.nalpha, conf.nbeta), 'reversed basis')
    check(len(flip.determinants) == d, 'reversed basis')
    for i in range(d):
        o = [-x for x in occupation(conf, basis.determinants[i])]
        check(flip.determinants[i] == from_occ(o), 'reversed basis')
        check(close(out[rank(flip.configuration, o), 0], vect[i, 0]), 'amplitude moved elsewhere')
        check(vect[i, 0] == before[i, 0], 'state changed')
    return False


def invariant(kind, nbh, nbv, side, nholes, nbeta, **kw):
    c = {x: kw[x] for x in COUPLINGS}
    s = {x: kw[x] for x in TERMS}
    conf, pos, nb = lattice(kind, nbh, nbv, side, nholes, nbeta)
    basis = bC.construct_basis(conf)
    conf2 = bC.reverse_spins(conf, basis.determinants[0])[0]
    basis2 = bC.construct_basis(conf2)
    h, h2 = full(conf, basis, c, s), full(conf2, basis2, c, s)
    d = len(basis.determinants)
    im = [bC.get_index_in_basis(conf2, bC.reverse_spins(conf, x)[1]) for x in basis.determinants]
    check(sorted(im) == list(range(d)), 'reversal is not one to one')
    for i in range(d):
        for j in range(d):
            check(close(h2[im[i], im[j]], h[i, j]), 'not invariant')
    return False


def units():
    out = []
    rows = [('quick', 'periodic', 2, 2, 1, 1, 1, ''), ('quick', 'periodic', 2, 2, 1, 0, 1, ''),
            ('quick', 'periodic', 2, 3, 1, 1, 1, ''), ('quick', 'periodic', 1, 1, 3, 1, 3, ''),
            ('quick', 'peripheral', 2, 1, 1, 2, 2, ''), ('quick', 'clusters', 2, 2, 1, 2, 4, ''),
            ('quick', 'periodic', 2, 2, 1, 1, 1, 'list'), ('quick', 'periodic', 2, 2, 1, 1, 2, 'pair'),
            ('quick', 'clusters', 1, 3, 1, 2, 1, 'list'), ('quick', 'periodic', 2, 2, 1, 4, 0, ''),
            ('thorough', 'clusters', 1, 3, 1, 1, 3, 'pair'), ('thorough', 'periodic', 5, 2, 1, 2, 3, ''),
            ('thorough', 'peripheral', 1, 1, 2, 2, 4, '')]
    rows = merge(rows, sweep(1000, 5000, ('periodic', 2, 1, 1), ('periodic', 3, 1, 1), ('periodic', 2, 2, 1), ('clusters', 1, 3, 1),
                             ('peripheral', 1, 1, 1), ('periodic', 2, 1, 2)))
    for tier, lab, k, n, nd, res in shapes(rows):
        ins = dict(det=Det(n, k['nholes'], k['nbeta']))
        k['a'] = k['b'] = None
        if res:
            ins['a'] = Subset(n, nonempty=True)
            k.pop('a')
        if res == 'pair':
            ins['b'] = Subset(n, nonempty=True)
            k.pop('b')
        out.append(Unit('reversal' + lab, reversal, ins, k, tier=tier, bounds='all determinants of %d sites%s' % (
            n, ', all restrictions' if res else '')))
    rows = [('quick', 'periodic', 2, 2, 1, 1, 1, ''), ('quick', 'periodic', 2, 2, 1, 1, 2, 'list'),
            ('quick', 'clusters', 1, 2, 1, 0, 1, ''), ('quick', 'periodic', 5, 1, 1, 2, 1, ''), ('quick', 'periodic', 2, 1, 1, 0, 0, ''),
            ('quick', 'periodic', 1, 2, 1, 2, 0, ''), ('quick', 'periodic', 4, 1, 1, 2, 1, ''),
            ('quick', 'periodic', 3, 1, 1, 1, 1, ''), ('quick', 'periodic', 2, 2, 1, 0, 2, ''),
            ('quick', 'clusters', 1, 2, 1, 2, 1, 'list'), ('quick', 'periodic', 5, 1, 1, 1, 2, ''),
            ('thorough', 'periodic', 3, 2, 1, 2, 1, ''), ('thorough', 'peripheral', 1, 1, 1, 1, 1, 'list'),
            ('thorough', 'periodic', 3, 2, 1, 2, 2, '')]
    for tier, lab, k, n, nd, res in shapes(rows):
        ins = dict(vect=Vec(nd, 1))
        if res:
            ins['sub'] = Subset(n, nonempty=True)
        else:
            k['sub'] = None
        out.append(Unit('vector' + lab, vector, ins, k, tier=tier, bounds='every state of %d determinants' % nd))
    ins = dict({c: Real() for c in COUPLINGS}, **{s: Bool() for s in TERMS})
    rows = [('quick', 'periodic', 2, 2, 1, 1, 1, ''), ('quick', 'periodic', 2, 2, 1, 0, 1, ''),
            ('quick', 'periodic', 3, 2, 1, 4, 1, ''), ('quick', 'peripheral', 1, 1, 1, 2, 1, ''),
            ('quick', 'periodic', 5, 1, 1, 3, 1, ''), ('quick', 'clusters', 1, 2, 1, 2, 1, ''),
            ('quick', 'clusters', 1, 2, 1, 1, 1, ''),
            ('thorough', 'periodic', 3, 2, 1, 2, 1, ''), ('thorough', 'clusters', 1, 3, 1, 3, 1, '')]
    for tier, lab, k, n, nd, res in shapes(rows):
        out.append(Unit('invariant' + lab, invariant, dict(ins), k, tier=tier,
                        bounds='every coupling and switch, the whole %d x %d matrix' % (nd, nd)))
    return out
