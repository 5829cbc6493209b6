"""C10 singlet displacement"""
import hamiltonianConstruction as hC
from common import *
from harness import Unit, Det, Subset, Real


def moves(occ, nb, pos, A, B):
    """(straight, shifted, shifted and exchanged) occupations"""
    out = []
    n = len(occ)
    for i in range(n):
        for j in nb[i]:
            for k in nb[j]:
                if k != i and occ[i] == 0 and occ[j] * occ[k] == -1 and i in A and j in B and k in B:
                    one, two = list(occ), list(occ)
                    one[i], one[j], one[k] = occ[j], occ[k], 0
                    two[i], two[j], two[k] = occ[k], occ[j], 0
                    out.append((straight(pos, i, j, k), one, two))
    return out


def images(det, a, b, kind, nbh, nbv, side, nholes, nbeta):
    conf, pos, nb = lattice(kind, nbh, nbv, side, nholes, nbeta, restriction(a, b))
    n = conf.nsites
    A, B = allowed(a, n), allowed(b if b is not None else a, n)
    before = det[:]
    par, per = itr.compute_singlet_displacement(conf, interactions(hSDpar=1, hSDper=1), det)
    check(det == before, 'starting determinant changed')
    occ = occupation(conf, det)
    ms = moves(occ, nb, pos, A, B)
    npar, nper = 0, 0
    for line, one, two in ms:
        w = [from_occ(one), from_occ(two)]
        twice = len([1 for l, o, p in ms if l == line and o == one and p == two])
        if line:
            npar = npar + 1
            check(par.count(w) == twice, 'straight displacement missing or repeated')
        else:
            nper = nper + 1
            check(per.count(w) == twice, 'bent displacement missing or repeated')
    check(len(par) == npar and len(per) == nper, 'unexpected image')
    return npar


def matrix(det, hSDpar, hSDper, a, b, kind, nbh, nbv, side, nholes, nbeta):
    conf, pos, nb = lattice(kind, nbh, nbv, side, nholes, nbeta, restriction(a, b))
    n = conf.nsites
    A, B = allowed(a, n), allowed(b if b is not None else a, n)
    ham = hC.HamiltonianCOO([], [], [])
    itr.add_singlet_displacement(ham, bC.Basis(conf, [det]), itr.Interactions(9, 3, 4, 5, hSDpar, hSDper, 5, 6, 7, 8))
    want = {}
    for line, one, two in moves(occupation(conf, det), nb, pos, A, B):
        x = hSDpar if line else hSDper
        k, l = rank(conf, one), rank(conf, two)
        want[k] = want.get(k, 0) + x
        want[l] = want.get(l, 0) - x
    compare_row(ham, want)
    return len(ham.data)


ROWS = term_rows(180, 2000)


def units():
    out = []
    for tier, lab, k, n, nd, res in shapes(ROWS):
        ins = dict(det=Det(n, k['nholes'], k['nbeta']))
        k['a'] = k['b'] = None
        if res:
            ins['a'] = Subset(n, nonempty=True)
            k.pop('a')
        if res == 'pair':
            ins['b'] = Subset(n, nonempty=True)
            k.pop('b')
        bd = 'all determinants of %d sites%s' % (n, ', all restrictions' if res else '')
        out.append(Unit('images' + lab, images, dict(ins), dict(k), tier=tier, bounds=bd))
        if nd * {'': 1, 'list': 2 ** n, 'pair': 4 ** n}[res] <= 1000:
            out.append(Unit('matrix' + lab, matrix, dict(ins, hSDpar=Real(), hSDper=Real()), dict(k), tier=tier if nd <= 20 or nd in (60, 90) else 'thorough',
                            bounds=bd + ', every amplitude'))
    return out
