"""C13 switches select exactly their own terms, the Hamiltonian is linear in the couplings"""
import hamiltonianConstruction as hC
import scipy.sparse as sp
from common import *
from harness import Unit, Real, Bool, Int, Vec, Subset


def linear(sub, kind, nbh, nbv, side, nholes, nbeta, **kw):
    c = {x: kw[x] for x in COUPLINGS}
    s = {x: kw[x] for x in TERMS}
    conf, pos, nb = lattice(kind, nbh, nbv, side, nholes, nbeta, sub)
    basis = bC.construct_basis(conf)
    dets = [d[:] for d in basis.determinants]
    inter, sw = interactions(**c), switches(**s)
    m = hC.build_hamiltonian(conf, inter, basis, sw).toarray()
    d = len(dets)
    parts = []
    for term in TERMS:
        for x in TERMS[term]:
            u = full(conf, basis, {y: (1 if y == x else 0) for y in COUPLINGS}, {term: True})
            parts.append((s[term], c[x], u))
    for i in range(d):
        for j in range(d):
            want = 0
            for on, v, u in parts:
                if u[i, j] != 0:
                    want = want + (u[i, j] * v if on else 0)
            check(close(m[i, j], want), 'not the sum of the selected terms')
    for x in COUPLINGS:
        check(getattr(inter, x) == c[x], 'couplings changed')
    for x in TERMS:
        check(getattr(sw, x) == s[x], 'switches changed')
    check(basis.determinants == dets and basis.configuration is conf, 'basis changed')
    check((conf.nholes, conf.nbeta, conf.nalpha, conf.nsites) == (nholes, nbeta, len(pos) - nholes - nbeta, len(pos)),
          'configuration changed')
    return False


def attributes(**kw):
    """a coupling is stored under its own name, a switch too"""
    inter = itr.Interactions(*[kw[x] for x in COUPLINGS])
    for x in COUPLINGS:
        check(getattr(inter, x) == kw[x], 'coupling stored under another name')
    sw = switches(**{x: kw[x] for x in TERMS})
    for x in TERMS:
        check(getattr(sw, x) == kw[x], 'switch stored under another name')


def add_element(m, elt, i, j, n):
    """one element added to an existing matrix"""
    coo = sp.coo_matrix(m)
    before = coo.toarray()
    r = hC.add_ham_coo(coo, elt, i, j)
    a = r.toarray()
    check(a.shape == (n, n), 'shape')
    for k in range(n):
        for l in range(n):
            check(close(a[k, l], m[k, l] + (elt if k == i and l == j else 0)), 'added elsewhere or another value')
    check(close(coo.toarray()[i, j], before[i, j]), 'the original matrix is changed')
    return False


def add_triplet(elt, i, j, data, n):
    ham = hC.HamiltonianCOO(data, [0] * len(data), list(range(len(data))))
    old = data[:]
    hC.add_ham_coo(ham, elt, i, j)
    k = len(old)
    check(len(ham.data) == k + 1 and len(ham.row) == k + 1 and len(ham.col) == k + 1, 'one triplet more')
    check(ham.data[k] == elt and ham.row[k] == i and ham.col[k] == j, 'triplet')
    check(ham.data[:k] == old and ham.row[:k] == [0] * k and ham.col[:k] == list(range(k)), 'older triplets changed')


def units():
    out = []
    rc = {c: Real() for c in COUPLINGS}
    rs = {s: Bool() for s in TERMS}
    rows = [('quick', 'periodic', 2, 2, 1, 1, 1, ''), ('quick', 'periodic', 2, 2, 1, 2, 1, ''),
            ('quick', 'periodic', 2, 2, 1, 0, 2, ''), ('quick', 'periodic', 3, 2, 1, 4, 1, ''),
            ('quick', 'periodic', 5, 1, 1, 3, 1, ''), ('quick', 'peripheral', 1, 1, 1, 2, 1, ''),
            ('quick', 'clusters', 1, 2, 1, 2, 1, ''), ('quick', 'clusters', 2, 1, 1, 1, 2, ''),
            ('thorough', 'periodic', 3, 2, 1, 1, 2, ''), ('thorough', 'periodic', 2, 3, 1, 2, 2, ''),
            ('thorough', 'clusters', 2, 2, 1, 5, 1, ''), ('thorough', 'peripheral', 2, 1, 1, 5, 2, ''),
            ('thorough', 'periodic', 1, 1, 3, 7, 1, '')]
    for tier, lab, k, n, nd, res in shapes(rows):
        out.append(Unit('linear' + lab, linear, dict(rc, **rs), dict(k, sub=None), tier=tier,
                        bounds='every coupling and switch, the whole %d x %d matrix' % (nd, nd)))
    out.append(Unit('attributes', attributes, dict(rc, **rs), bounds='every coupling and switch'))
    for n in (1, 2, 4):
        out.append(Unit('add_element %d' % n, add_element, dict(
            m=Vec(n, n), elt=Real(), i=Int(0, n - 1), j=Int(0, n - 1)), dict(n=n), bounds='every %d x %d matrix' % (n, n)))
    for n in (0, 3):
        out.append(Unit('add_triplet %d' % n, add_triplet, dict(
            data=Vec(n, aslist=True), elt=Real(), i=Int(0, 4), j=Int(0, 4)), dict(n=n), bounds='%d older elements' % n))
    return out
