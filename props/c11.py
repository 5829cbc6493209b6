"""C11 hole repulsion"""
import hamiltonianConstruction as hC
from common import *
from harness import Unit, Det, Subset, Real


def repulsion(occ, pos, nb, A, VNN, VNNNper):
    n = len(pos)
    e = 0
    for i in range(n):
        for j in range(n):
            if i < j and occ[i] == 0 and occ[j] == 0 and i in A and j in A:
                two, line = two_bonds(pos, nb, i, j)
                if j in nb[i]:
                    e = e + VNN
                if two and not line:
                    e = e + VNNNper
    return e


def images(det, a, b, kind, nbh, nbv, side, nholes, nbeta):
    conf, pos, nb = lattice(kind, nbh, nbv, side, nholes, nbeta, restriction(a, b))
    n = conf.nsites
    A, B = allowed(a, n), allowed(b if b is not None else a, n)
    before = det[:]
    r = itr.compute_hole_repulsion(conf, interactions(VNN=1, VNNNper=100), det)
    check(det == before, 'starting determinant changed')
    check(close(r, repulsion(occupation(conf, det), pos, nb, A, 1, 100)), 'hole repulsion')
    return r


def matrix(det, VNN, VNNNper, a, b, kind, nbh, nbv, side, nholes, nbeta):
    conf, pos, nb = lattice(kind, nbh, nbv, side, nholes, nbeta, restriction(a, b))
    n = conf.nsites
    A, B = allowed(a, n), allowed(b if b is not None else a, n)
    ham = hC.HamiltonianCOO([], [], [])
    itr.add_hole_repulsion(ham, bC.Basis(conf, [det]), itr.Interactions(9, 3, 4, 5, 6, 7, 8, 5, VNN, VNNNper))
    check(len(ham.data) == 1, 'one diagonal element')
    compare_row(ham, {0: repulsion(occupation(conf, det), pos, nb, A, VNN, VNNNper)})
    return len(ham.data)


ROWS = term_rows(180, 2000, pairs=False)


def units():
    out = []
    for tier, lab, k, n, nd, res in shapes(ROWS):
        ins = dict(det=Det(n, k['nholes'], k['nbeta']))
        k['a'] = k['b'] = None
        if res:
            ins['a'] = Subset(n, nonempty=True)
            k.pop('a')
        if res == 'pair':
            ins['b'] = Subset(n, nonempty=True)
            k.pop('b')
        bd = 'all determinants of %d sites%s' % (n, ', all restrictions' if res else '')
        out.append(Unit('images' + lab, images, dict(ins), dict(k), tier=tier, bounds=bd))
        if nd * {'': 1, 'list': 2 ** n, 'pair': 4 ** n}[res] <= 1000:
            out.append(Unit('matrix' + lab, matrix, dict(ins, VNN=Real(), VNNNper=Real()), dict(k), tier=tier if nd <= 20 or nd in (60, 90) else 'thorough',
                            bounds=bd + ', every amplitude'))
    return out
