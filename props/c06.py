"""C06 nearest-neighbour hopping"""
import hamiltonianConstruction as hC
from common import *
from harness import Unit, Det, Subset, Real


def images(det, a, b, kind, nbh, nbv, side, nholes, nbeta):
    """a, b: allowed starting and target sites (None: no restriction)"""
    conf, pos, nb = lattice(kind, nbh, nbv, side, nholes, nbeta, restriction(a, b))
    n = conf.nsites
    A, B = allowed(a, n), allowed(b if b is not None else a, n)
    before = det[:]
    im = itr.compute_hopping_integral(conf, itr.Interactions(1, 0, 0, 0, 0, 0, 0, 0, 0, 0), det)
    check(det == before, 'starting determinant changed')
    occ = occupation(conf, det)
    total = 0
    for i in range(n):
        for j in nb[i]:
            if occ[i] == 0 and occ[j] != 0 and i in A and j in B:
                total = total + 1
                check(im.count(from_occ(swap(occ, i, j))) == 1, 'hop missing or repeated')
    check(len(im) == total, 'unexpected image')
    return len(im)


def matrix(det, t, a, b, kind, nbh, nbv, side, nholes, nbeta):
    conf, pos, nb = lattice(kind, nbh, nbv, side, nholes, nbeta, restriction(a, b))
    n = conf.nsites
    A, B = allowed(a, n), allowed(b if b is not None else a, n)
    ham = hC.HamiltonianCOO([], [], [])
    basis = bC.Basis(conf, [det])
    itr.add_hopping_integral(ham, basis, itr.Interactions(t, 0.5, 0.25, 2, 3, 4, 5, 6, 7, 8))
    occ = occupation(conf, det)
    want = {}
    for i in range(n):
        for j in nb[i]:
            if occ[i] == 0 and occ[j] != 0 and i in A and j in B:
                k = rank(conf, swap(occ, i, j))
                want[k] = want.get(k, 0) + t
    compare_row(ham, want)
    return len(ham.data)


def units():
    out = []
    for tier, kind, nbh, nbv, side, nh, nb, res in term_rows(180, 2000):
        W, H = nbh * side, nbv * side
        n = len(geometry(kind, W, H))
        lab = ' %s %dx%d side %d, %d holes %d down %s' % (kind, nbh, nbv, side, nh, nb, res)
        a, b = None, None
        if res == 'list':
            a = Subset(n, nonempty=True)
        elif res == 'pair':
            a, b = Subset(n, nonempty=True), Subset(n, nonempty=True)
        ins = dict(det=Det(n, nh, nb))
        k = dict(kind=kind, nbh=nbh, nbv=nbv, side=side, nholes=nh, nbeta=nb)
        for nm, x in (('a', a), ('b', b)):
            if x is None:
                k[nm] = None
            else:
                ins[nm] = x
        bd = 'all determinants of %d sites%s' % (n, ', all restrictions' if res else '')
        out.append(Unit('images' + lab, images, dict(ins), dict(k), tier=tier, bounds=bd))
        nd = choose(n, nh) * choose(n - nh, nb)
        if nd * (1 if not res else 2 ** n if res == 'list' else 4 ** n) <= 1000:
            out.append(Unit('matrix' + lab, matrix, dict(ins, t=Real()), dict(k),
                            tier=tier if nd <= 20 or nd in (60, 90) else 'thorough', bounds=bd + ', every amplitude'))
    return out
