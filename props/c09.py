"""C09 spin flips"""
import hamiltonianConstruction as hC
from common import *
from harness import Unit, Det, Subset, Real


def images(det, a, b, kind, nbh, nbv, side, nholes, nbeta):
    conf, pos, nb = lattice(kind, nbh, nbv, side, nholes, nbeta, restriction(a, b))
    n = conf.nsites
    A, B = allowed(a, n), allowed(b if b is not None else a, n)
    before = det[:]
    par, per, free = itr.compute_spin_flip(conf, interactions(J=1, Jhpar=1, Jhper=1), det)
    check(det == before, 'starting determinant changed')
    occ = occupation(conf, det)
    groups = dict(par=par, per=per, free=free)
    total = 0
    for i in range(n):
        for j in nb[i]:
            if i < j and occ[i] * occ[j] == -1 and ((i in A and j in B) or (j in A and i in B)):
                total = total + 1
                w = from_occ(swap(occ, i, j))
                e = environment(occ, pos, nb, i, j)
                for g in groups:
                    check(groups[g].count(w) == (1 if g == e else 0), 'flip missing, repeated or misplaced')
    check(len(par) + len(per) + len(free) == total, 'unexpected image')
    return total


def matrix(det, J, Jhpar, Jhper, a, b, kind, nbh, nbv, side, nholes, nbeta):
    conf, pos, nb = lattice(kind, nbh, nbv, side, nholes, nbeta, restriction(a, b))
    n = conf.nsites
    A, B = allowed(a, n), allowed(b if b is not None else a, n)
    ham = hC.HamiltonianCOO([], [], [])
    itr.add_spin_flip(ham, bC.Basis(conf, [det]), itr.Interactions(9, J, Jhpar, Jhper, 3, 4, 5, 6, 7, 8))
    occ = occupation(conf, det)
    c = dict(par=Jhpar, per=Jhper, free=J)
    want = {}
    for i in range(n):
        for j in nb[i]:
            if i < j and occ[i] * occ[j] == -1 and ((i in A and j in B) or (j in A and i in B)):
                k = rank(conf, swap(occ, i, j))
                want[k] = want.get(k, 0) + c[environment(occ, pos, nb, i, j)] / 2
    compare_row(ham, want)
    return len(ham.data)


ROWS = term_rows(180, 2000)


def units():
    out = []
    for tier, lab, k, n, nd, res in shapes(ROWS):
        ins = dict(det=Det(n, k['nholes'], k['nbeta']))
        k['a'] = k['b'] = None
        if res:
            ins['a'] = Subset(n, nonempty=True)
            k.pop('a')
        if res == 'pair':
            ins['b'] = Subset(n, nonempty=True)
            k.pop('b')
        bd = 'all determinants of %d sites%s' % (n, ', all restrictions' if res else '')
        out.append(Unit('images' + lab, images, dict(ins), dict(k), tier=tier, bounds=bd))
        if nd * {'': 1, 'list': 2 ** n, 'pair': 4 ** n}[res] <= 1000:
            out.append(Unit('matrix' + lab, matrix, dict(ins, J=Real(), Jhpar=Real(), Jhper=Real()), dict(k), tier=tier if nd <= 20 or nd in (60, 90) else 'thorough',
                            bounds=bd + ', every amplitude'))
    return out
