"""C08 static spin energy"""
import hamiltonianConstruction as hC
from common import *
from harness import Unit, Det, Subset, Real


def energy(occ, pos, nb, A, B, c):
    n = len(pos)
    e = 0
    for i in range(n):
        for j in nb[i]:
            if i < j and occ[i] != 0 and occ[j] != 0 and ((i in A and j in B) or (j in A and i in B)):
                x = c[environment(occ, pos, nb, i, j)]
                if occ[i] != occ[j]:
                    e = e - x / 2
    return e


def images(det, a, b, kind, nbh, nbv, side, nholes, nbeta):
    """couplings are powers of two of ten: the energy tells how many bonds of each sort were counted"""
    conf, pos, nb = lattice(kind, nbh, nbv, side, nholes, nbeta, restriction(a, b))
    n = conf.nsites
    A, B = allowed(a, n), allowed(b if b is not None else a, n)
    before = det[:]
    r = itr.compute_static_spin_interaction(conf, interactions(J=2, Jhpar=200, Jhper=20000), det)
    check(det == before, 'starting determinant changed')
    check(close(r, energy(occupation(conf, det), pos, nb, A, B, dict(free=2, par=200, per=20000))), 'static energy')
    return r


def matrix(det, J, Jhpar, Jhper, a, b, kind, nbh, nbv, side, nholes, nbeta):
    conf, pos, nb = lattice(kind, nbh, nbv, side, nholes, nbeta, restriction(a, b))
    n = conf.nsites
    A, B = allowed(a, n), allowed(b if b is not None else a, n)
    ham = hC.HamiltonianCOO([], [], [])
    itr.add_static_spin_interaction(ham, bC.Basis(conf, [det]), itr.Interactions(
        9, J, Jhpar, Jhper, 3, 4, 5, 6, 7, 8))
    check(len(ham.data) == 1, 'one diagonal element')
    compare_row(ham, {0: energy(occupation(conf, det), pos, nb, A, B, dict(free=J, par=Jhpar, per=Jhper))})
    return len(ham.data)


ROWS = term_rows(180, 2000)


def units():
    out = []
    for tier, lab, k, n, nd, res in shapes(ROWS):
        ins = dict(det=Det(n, k['nholes'], k['nbeta']))
        k['a'] = k['b'] = None
        if res:
            ins['a'] = Subset(n, nonempty=True)
            k.pop('a')
        if res == 'pair':
            ins['b'] = Subset(n, nonempty=True)
            k.pop('b')
        bd = 'all determinants of %d sites%s' % (n, ', all restrictions' if res else '')
        out.append(Unit('images' + lab, images, dict(ins), dict(k), tier=tier, bounds=bd))
        if nd * {'': 1, 'list': 2 ** n, 'pair': 4 ** n}[res] <= 1000:
            out.append(Unit('matrix' + lab, matrix, dict(ins, J=Real(), Jhpar=Real(), Jhper=Real()), dict(k), tier=tier if nd <= 20 or nd in (60, 90) else 'thorough',
                            bounds=bd + ', every amplitude'))
    return out
