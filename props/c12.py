"""C12 the Hamiltonian is real, square and symmetric"""
import hamiltonianConstruction as hC
from common import *
from harness import Unit, Det, Subset, Real, Bool, Choice

RC = {c: Real() for c in COUPLINGS}
RS = {s: Bool() for s in TERMS}


def symmetric(sub, kind, nbh, nbv, side, nholes, nbeta, **kw):
    c = {x: kw[x] for x in COUPLINGS}
    s = {x: kw[x] for x in TERMS}
    conf, pos, nb = lattice(kind, nbh, nbv, side, nholes, nbeta, sub)
    basis = bC.construct_basis(conf)
    d = choose(conf.nsites, nholes) * choose(conf.nsites - nholes, nbeta)
    m = hC.build_hamiltonian(conf, interactions(**c), basis, switches(**s))
    check(m.shape == (d, d), 'not square of the dimension of the space')
    m = m.toarray()
    for i in range(d):
        for j in range(i):
            check(close(m[i, j], m[j, i]), 'not symmetric')
    return False


def units():
    out = []
    rows = [('quick', 'periodic', 2, 2, 1, 1, 1, ''), ('quick', 'periodic', 2, 2, 1, 2, 1, ''),
            ('quick', 'periodic', 2, 2, 1, 0, 2, ''), ('quick', 'periodic', 3, 2, 1, 4, 1, ''),
            ('quick', 'periodic', 5, 1, 1, 3, 1, ''), ('quick', 'peripheral', 1, 1, 1, 2, 1, ''),
            ('quick', 'clusters', 1, 2, 1, 2, 1, ''), ('quick', 'clusters', 2, 1, 1, 1, 2, ''),
            ('quick', 'periodic', 1, 1, 2, 2, 1, 'list'), ('quick', 'clusters', 1, 2, 1, 1, 1, 'list'),
            ('quick', 'peripheral', 1, 1, 1, 3, 1, 'list'),
            ('thorough', 'periodic', 3, 2, 1, 1, 2, ''), ('thorough', 'periodic', 2, 3, 1, 2, 2, ''),
            ('thorough', 'clusters', 2, 2, 1, 5, 1, ''), ('thorough', 'peripheral', 2, 1, 1, 5, 2, ''),
            ('thorough', 'periodic', 1, 1, 3, 7, 1, ''), ('thorough', 'periodic', 3, 2, 1, 2, 1, 'list')]
    for tier, lab, k, n, nd, res in shapes(rows):
        ins = dict(RC, **RS)
        if res:
            ins['sub'] = Subset(n, nonempty=True)
        else:
            k['sub'] = None
        out.append(Unit('symmetric' + lab, symmetric, ins, k, tier=tier,
                        bounds='every coupling and switch, the whole %d x %d matrix' % (nd, nd)))
    return out
