"""C07 next-neighbour hopping"""
import hamiltonianConstruction as hC
from common import *
from harness import Unit, Det, Subset, Real


def images(det, a, b, kind, nbh, nbv, side, nholes, nbeta):
    conf, pos, nb = lattice(kind, nbh, nbv, side, nholes, nbeta, restriction(a, b))
    n = conf.nsites
    A, B = allowed(a, n), allowed(b if b is not None else a, n)
    before = det[:]
    col, ortho = itr.compute_next_hopping_integral(conf, interactions(tNNN=1, tnNNN=1), det)
    check(det == before, 'starting determinant changed')
    occ = occupation(conf, det)
    nc, no = 0, 0
    for i in range(n):
        for j in range(n):
            two, col_path = two_bonds(pos, nb, i, j)
            if two and occ[i] == 0 and occ[j] != 0 and i in A and j in B:
                w = from_occ(swap(occ, i, j))
                if col_path:
                    nc = nc + 1
                    check(col.count(w) == 1, 'straight jump missing or repeated')
                else:
                    no = no + 1
                    check(ortho.count(w) == 1, 'bent jump missing or repeated')
    check(len(col) == nc and len(ortho) == no, 'unexpected image')
    return len(col)


def matrix(det, straight_amplitude, bent_amplitude, a, b, kind, nbh, nbv, side, nholes, nbeta):
    conf, pos, nb = lattice(kind, nbh, nbv, side, nholes, nbeta, restriction(a, b))
    n = conf.nsites
    A, B = allowed(a, n), allowed(b if b is not None else a, n)
    ham = hC.HamiltonianCOO([], [], [])
    itr.add_next_hopping_integral(ham, bC.Basis(conf, [det]), itr.Interactions(
        9, 0.5, 0.25, 2, 3, 4, bent_amplitude, straight_amplitude, 7, 8))
    occ = occupation(conf, det)
    want = {}
    for i in range(n):
        for j in range(n):
            two, col_path = two_bonds(pos, nb, i, j)
            if two and occ[i] == 0 and occ[j] != 0 and i in A and j in B:
                k = rank(conf, swap(occ, i, j))
                want[k] = want.get(k, 0) + (straight_amplitude if col_path else bent_amplitude)
    compare_row(ham, want)
    return len(ham.data)


ROWS = term_rows(180, 2000)


def units():
    out = []
    for tier, lab, k, n, nd, res in shapes(ROWS):
        ins = dict(det=Det(n, k['nholes'], k['nbeta']))
        k['a'] = k['b'] = None
        if res:
            ins['a'] = Subset(n, nonempty=True)
            k.pop('a')
        if res == 'pair':
            ins['b'] = Subset(n, nonempty=True)
            k.pop('b')
        bd = 'all determinants of %d sites%s' % (n, ', all restrictions' if res else '')
        out.append(Unit('images' + lab, images, dict(ins), dict(k), tier=tier, bounds=bd))
        if nd * {'': 1, 'list': 2 ** n, 'pair': 4 ** n}[res] <= 1000:
            out.append(Unit('matrix' + lab, matrix, dict(ins, straight_amplitude=Real(), bent_amplitude=Real()), dict(k), tier=tier if nd <= 20 or nd in (60, 90) else 'thorough',
                            bounds=bd + ', every amplitude'))
    return out
