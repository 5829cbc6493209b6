"""C14 the Hamiltonian conserves the total spin"""
import hamiltonianConstruction as hC
from common import *
from harness import Unit, Real, Bool


def spin_squared(conf, dets):
    """total spin squared, from permutations of the electron spins"""
    occs = [tuple(occupation(conf, d)) for d in dets]
    where = {o: k for k, o in enumerate(occs)}
    d = len(dets)
    m = np.zeros((d, d))
    for k in range(d):
        o = occs[k]
        for i in range(len(o)):
            if o[i] != 0:
                m[k, k] += 0.75
            for j in range(i):
                if o[i] != 0 and o[j] != 0:
                    # 2 Si.Sj = P - 1/2, P exchanging the two spins
                    m[k, k] -= 0.5
                    m[k, where[tuple(swap(o, i, j))]] += 1
    return m


def commutes(kind, nbh, nbv, side, nholes, nbeta, **kw):
    c = {x: kw[x] for x in COUPLINGS}
    s = {x: kw[x] for x in TERMS if x not in ('bz', 'bij')}
    s['bz'] = s['bij'] = kw['spin']
    conf, pos, nb = lattice(kind, nbh, nbv, side, nholes, nbeta)
    basis = bC.construct_basis(conf)
    dets = basis.determinants
    h = full(conf, basis, c, s)
    s2 = spin_squared(conf, dets)
    d = len(dets)
    for i in range(d):
        for j in range(d):
            x, y = 0, 0
            for k in range(d):
                if s2[k, j] != 0:
                    x = x + h[i, k] * s2[k, j]
                if s2[i, k] != 0:
                    y = y + s2[i, k] * h[k, j]
            check(close(x, y), 'does not commute with the total spin')
    return False


def units():
    out = []
    ins = dict({c: Real() for c in COUPLINGS}, **{s: Bool() for s in TERMS if s not in ('bz', 'bij')})
    ins['spin'] = Bool()
    rows = [('quick', 'periodic', 2, 2, 1, 1, 1, ''), ('quick', 'periodic', 2, 2, 1, 2, 1, ''),
            ('quick', 'periodic', 2, 2, 1, 0, 2, ''), ('quick', 'periodic', 3, 2, 1, 4, 1, ''),
            ('quick', 'periodic', 5, 1, 1, 3, 1, ''), ('quick', 'periodic', 1, 4, 1, 1, 1, ''),
            ('quick', 'peripheral', 1, 1, 1, 2, 1, ''),
            ('quick', 'clusters', 1, 2, 1, 2, 1, ''), ('quick', 'clusters', 2, 1, 1, 1, 2, ''),
            ('quick', 'peripheral', 2, 1, 1, 6, 1, ''),
            ('thorough', 'periodic', 3, 2, 1, 1, 2, ''), ('thorough', 'periodic', 2, 3, 1, 2, 2, ''),
            ('thorough', 'clusters', 2, 2, 1, 5, 1, ''), ('thorough', 'peripheral', 1, 2, 1, 5, 1, ''),
            ('thorough', 'periodic', 1, 1, 3, 7, 1, '')]
    for tier, lab, k, n, nd, res in shapes(rows):
        out.append(Unit('commutes' + lab, commutes, dict(ins), dict(k), tier=tier,
                        bounds='every coupling and switch, the whole %d x %d matrix' % (nd, nd)))
    return out
